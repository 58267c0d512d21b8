"""L06: integers go in and come out exactly, and others are never taken for them."""
import array
import pickle
import struct
import sys

from lib import large
from lib.lists import KINDS, Index, Values
from lib.monitor import Violation

RULE = ("A case takes one integer list type, one write path (13 ways to store) and one read path (14 ways to read) and a "
        "window of values (every value from -1200 to 1200, every power of two with neighbours, both limits with "
        "neighbours, random ones); every integer that comes out is put through the canonical-integer monitor (exact "
        "type, size, equality, hash, order, arithmetic, bits, text, pickling against an integer built from text). "
        "Range cases put integers outside the range (aliases modulo 2^8, 2^16, 2^32, 2^64 of stored ones included) "
        "through every write and search path. distinct_nontrivial counts distinct (type, path, path, value) triples "
        "checked.")
ASSUMPTIONS = ["objects that are not integers but convert to one may be stored as that integer or be refused"]
INTS = ("IntArrayList", "BigIntArrayList", "IntLinkedList")


class MyInt(int):
    def __repr__(self):
        return "MyInt(%d)" % int(self)


def shards(tier, seed):
    n = {"quick": 4000, "thorough": 60000}[tier]
    r = []
    for k in INTS:
        r.append(dict(name="exact-" + k, kind=k, lo=0, hi=n, split=3))
        r.append(dict(name="range-" + k, kind=k, lo=0, hi=n, split=2, range=True))
        r.append(dict(name="asan-exact-" + k, kind=k, variant="asan", lo=0, hi=n // 8, split=2))
        r.append(dict(name="asan-range-" + k, kind=k, variant="asan", lo=0, hi=n // 8, split=1, range=True))
    r += large.shards("exact", INTS, tier)
    return r


def canonical(x, v, what):
    """x came out where the integer v went in; v is rebuilt from text so that nothing is shared."""
    w = int(repr(v) if type(v) is int else str(int(v)))
    checks = (
        ("type", type(x) is int), ("==", x == w and w == x and not x != w), ("hash", hash(x) == hash(w)),
        ("repr", repr(x) == repr(w) and str(x) == str(w) and "%d" % x == "%d" % w and format(x, "x") == format(w, "x")),
        ("order", x <= w and x >= w and not x < w and not x > w and x < w + 1 and x > w - 1),
        ("arithmetic", x - w == 0 and x + 1 == w + 1 and -x == -w and x * x == w * w and x * 3 - w == 2 * w),
        ("division", x // 7 == w // 7 and x % 7 == w % 7 and x / 3 == w / 3 and divmod(x, -11) == divmod(w, -11)),
        ("bits", x ^ w == 0 and x & -1 == w and x | 0 == w and ~x == ~w and x << 3 == w << 3 and x >> 3 == w >> 3),
        ("truth", bool(x) is bool(w)), ("abs", abs(x) == abs(w) and x.bit_length() == w.bit_length()),
        ("size", sys.getsizeof(x) == sys.getsizeof(w)), ("float", float(x) == float(w)),
        ("bytes", x.to_bytes(9, "little", signed=True) == w.to_bytes(9, "little", signed=True)),
        ("dict", {w: 1}.get(x) == 1 and x in {w}), ("struct", struct.pack("<q", x) == struct.pack("<q", w)),
        ("pickle", pickle.dumps(x) == pickle.dumps(w)), ("pow", pow(x, 2, 1009) == pow(w, 2, 1009)),
    )
    bad = [n for n, ok in checks if not ok]
    if bad:
        raise Violation("inexact", "%s: %s came out as %r (%s differ)" % (what, w, x, ", ".join(bad)))


def w_construct(kind, rng, vs):
    return kind.cls(vs)


def w_tuple(kind, rng, vs):
    return kind.cls(tuple(vs))


def w_generator(kind, rng, vs):
    return kind.cls(x for x in vs)


def w_hint(kind, rng, vs):
    if not kind.resize:
        return kind.cls(iter(vs))
    return kind.cls(vs, len(vs) + 3)


def w_append(kind, rng, vs):
    L = kind.cls()
    for v in vs:
        L.append(v)
    return L


def w_insert(kind, rng, vs):
    L = kind.cls()
    for v in reversed(vs):
        L.insert(0, v)
    return L


def w_extend(kind, rng, vs):
    L = kind.cls()
    L.extend(list(vs))
    return L


def w_extend_iter(kind, rng, vs):
    L = kind.cls(vs[:1])
    L.extend(iter(vs[1:]))
    return L


def w_iadd(kind, rng, vs):
    L = kind.cls()
    L += rng.choice([list, tuple, kind.cls])(vs)
    return L


def w_setitem(kind, rng, vs):
    L = kind.cls([0] * len(vs))
    for i, v in enumerate(vs):
        L[i - rng.choice([0, len(vs)])] = v
    return L


def w_setslice(kind, rng, vs):
    L = kind.cls([7, 7, 7])
    L[:] = rng.choice([list, tuple, iter, kind.cls])(vs)
    return L


def w_copy(kind, rng, vs):
    return kind.cls(vs).copy()


def w_mul(kind, rng, vs):
    L = kind.cls(vs) * 3
    del L[len(vs):]
    return L


def w_other(kind, rng, vs):
    names = [k for k in ("IntArrayList", "BigIntArrayList", "IntLinkedList", "ObjectArrayList", "ObjectLinkedList")]
    for n in rng.sample(names, len(names)):
        try:
            return kind.cls(KINDS[n].cls(vs))
        except (OverflowError, RuntimeError, TypeError, ValueError):
            if KINDS[n].bounds is None or KINDS[n].bounds[0] <= min(vs) and max(vs) <= KINDS[n].bounds[1]:
                raise
    return kind.cls(vs)


def w_buffer(kind, rng, vs):
    if kind.linked:
        return kind.cls(array.array("i", vs))
    L = kind.cls([0] * len(vs))
    with memoryview(L) as m:
        for i, v in enumerate(vs):
            m[i] = v
    return L


def w_add(kind, rng, vs):
    k = len(vs) // 2
    return kind.cls(vs[:k]) + kind.cls(vs[k:])


WRITES = [v for k, v in sorted(globals().items()) if k.startswith("w_")]


def r_index(L, n, rng):
    return [L[i] for i in range(n)]


def r_negindex(L, n, rng):
    return [L[i - n] for i in range(n)]


def r_iter(L, n, rng):
    return [x for x in L]


def r_reversed(L, n, rng):
    return list(reversed(L))[::-1]


def r_pop(L, n, rng):
    return [L.pop() for _ in range(n)][::-1]


def r_pop0(L, n, rng):
    return [L.pop(0) for _ in range(n)]


def r_slice(L, n, rng):
    k = rng.randrange(n + 1)
    return L[:k] + L[k:]


def r_step(L, n, rng):
    return L[::-1][::-1]


def r_tolist(L, n, rng):
    return L.to_list()


def r_list(L, n, rng):
    return list(L)


def r_addlist(L, n, rng):
    return L + []


def r_key(L, n, rng):
    seen = {}
    L.sort(key=lambda v: seen.setdefault(len(seen), v) and 0 or 0)
    return [seen[i] for i in range(n)] if len(seen) == n else None


def r_repr(L, n, rng):
    text = repr(L) if rng.random() < 0.5 else str(L)
    return [int(x) for x in text.strip("[]").split(",") if x.strip()]


def r_unpack(L, n, rng):
    return [*L]


def r_next(L, n, rng):
    it = iter(L)
    return [next(it) for _ in range(n)]


READS = [v for k, v in sorted(globals().items()) if k.startswith("r_")]


def window(rng, kind, case):
    lo, hi = kind.bounds
    r = case % 6
    if r == 0:
        start = -1200 + (case // 6 * 12) % 2400
        return list(range(start, start + 12))
    if r == 1:
        p = rng.randrange(3, hi.bit_length())
        s = rng.choice([-1, 1])
        return [s * 2 ** p + d for d in range(-4, 5) if lo <= s * 2 ** p + d <= hi]
    if r == 2:
        return rng.choice([[lo + d for d in range(8)], [hi - d for d in range(8)]])
    if r == 3:  # digit boundaries of the interpreter's representation
        return [s * d + e for d in (2 ** 30, 2 ** 15, 2 ** 60) for s in (-1, 1) for e in (-1, 0, 1)
                if lo <= s * d + e <= hi]
    return [rng.randint(lo, hi) for _ in range(rng.choice([1, 2, 9, 40]))]


def run_case(ctx, shard, case):
    if shard.get("mode") == "large":
        return large.run(ctx, shard)
    rng = ctx.rng
    kind = KINDS[shard["kind"]]
    if shard.get("range"):
        return range_case(ctx, rng, kind, case)
    vs = window(rng, kind, case)
    if rng.random() < 0.2:
        vs = [MyInt(v) if rng.random() < 0.3 else v for v in vs]
        vs += [True, False]
    if rng.random() < 0.01:
        vs += Values(rng, kind).many(rng.choice([130, 600, 1500, 5000]))
    rng.shuffle(vs)
    for write in WRITES:
        read = READS[(case + WRITES.index(write)) % len(READS)]
        what = "%s, stored by %s, read by %s" % (kind, write.__name__[2:], read.__name__[2:])
        ctx.mark(what)
        L = write(kind, rng, list(vs))
        out = read(L, len(vs), rng)
        if out is None or len(out) != len(vs):
            raise Violation("inexact-length", "%s: %r gave %r" % (what, vs, out))
        for v, x in zip(vs, out):
            if read is not r_repr:
                canonical(x, v, what)
            elif x != v:
                raise Violation("inexact", "%s: %r came out as %r" % (what, v, x))
            ctx.count("integers checked")
            ctx.distinct(kind.name, write.__name__, read.__name__, int(v))
    ctx.sample("%s: %r" % (kind, vs))


def outside(rng, kind, inside):
    lo, hi = kind.bounds
    width = (hi - lo + 1).bit_length() - 1
    v = rng.choice(inside) if inside else 0
    far = [hi + 1, lo - 1, hi + 2, lo - 2, 2 ** width, -2 ** width, 2 ** 100, -2 ** 100, 2 ** 64 - 1, 2 ** 63, -2 ** 63 - 1,
           2 ** 1000, 2 ** 32 + 5, 2 ** 30 * 2 ** 30 * 8]
    alias = [v + 2 ** width, v - 2 ** width, v + 2 ** (2 * width), v + 2 ** 64, v - 2 ** 64, v + 2 ** 128, v + 2 ** 32 * 3,
             v + 2 ** 90, v - 2 ** 60 * 16]
    x = rng.choice(rng.choice([far, alias]))
    while lo <= x <= hi:
        x += rng.choice([-1, 1]) * 2 ** width
    return MyInt(x) if rng.random() < 0.1 else x


def range_case(ctx, rng, kind, case):
    values = Values(rng, kind)
    data = values.many(rng.choice([0, 1, 2, 3, 7, 8, 20, 40]) if rng.random() < 0.96 else rng.choice([130, 600, 1500, 5000, 70000]))
    subject = kind.cls(data)
    n = len(data)
    bad = outside(rng, kind, data)
    i = rng.randrange(n) if n else 0
    at = rng.randrange(4)
    mixed = values.many(3)
    mixed.insert(at, bad)
    shape = rng.choice([list, tuple, iter, lambda x: (y for y in x), KINDS["ObjectArrayList"].cls])
    maker = "%s%r" % (getattr(shape, "__name__", "shape"), mixed)

    def setitem():
        subject[i] = bad

    def setslice():
        subject[i:i + rng.randrange(4)] = shape(mixed)

    def iadd():
        nonlocal subject
        s = subject
        s += shape(mixed)

    def construct():
        return kind.cls(shape(mixed))

    def from_range():
        if not hasattr(kind.cls, "from_range"):
            raise OverflowError
        lo, hi = kind.bounds
        return kind.cls.from_range(*rng.choice([(hi - 2, hi + 3), (lo - 2, lo + 2), (0, hi * 3, hi), (lo, lo * 4, lo)]))

    def buffer_write():
        if kind.linked or not n:
            raise OverflowError
        with memoryview(subject) as m:
            m[i] = bad

    def other():
        if kind.name == "BigIntArrayList":
            raise OverflowError
        big = KINDS["BigIntArrayList"].cls([min(max(v, -2 ** 63), 2 ** 63 - 1) for v in mixed])
        return rng.choice([lambda: kind.cls(big), lambda: subject.extend(big),
                           lambda: subject.__setitem__(slice(0, 0), big), lambda: subject.__iadd__(big)])()

    writes = {"append": lambda: subject.append(bad), "insert": lambda: subject.insert(i, bad),
              "extend": lambda: subject.extend(shape(mixed)), "setitem": setitem, "setslice": setslice, "iadd": iadd,
              "construct": construct, "from_range": from_range, "buffer": buffer_write, "other": other,
              "extend1": lambda: subject.extend([bad])}
    for name, fn in sorted(writes.items()):
        if name == "setitem" and not n:
            continue
        ctx.mark("%s %s %s" % (kind, name, maker))
        before = list(data)
        try:
            result = fn()
        except Exception as e:
            if isinstance(e, SystemError):
                raise Violation("range-systemerror", "%s %s of %r: %r" % (kind, name, bad, e))
        else:
            raise Violation("range-stored", "%s %s of %r (in %r) was accepted: %r, list %r" % (
                kind, name, bad, mixed, result, subject.to_list()))
        after = subject.to_list()
        if name in ("extend", "iadd", "other"):  # what was taken before the bad one may stay
            ok = after[:n] == before and after[n:] in [mixed[:k] for k in range(at + 1)]
        else:
            ok = after == before
        if not ok:
            raise Violation("range-changed", "%s %s of %r (in %r) raised, but the list went from %r to %r" % (
                kind, name, bad, mixed, before, after))
        if after != before:
            subject = kind.cls(data)
        ctx.count("out-of-range writes refused")
        ctx.distinct(kind.name, name, int(bad))
    # searching
    if bad in subject:
        raise Violation("range-contains", "%r in %s(%r)" % (bad, kind, data))
    for name, fn in (("count", subject.count), ("index", subject.index), ("remove", subject.remove)):
        ctx.mark("%s %s %r" % (kind, name, bad))
        try:
            r = fn(bad)
        except SystemError:
            raise
        except Exception:
            continue
        if name != "count" or r != 0:
            raise Violation("range-found", "%s(%r).%s(%r) gave %r" % (kind, data, name, bad, r))
    if subject.to_list() != data:
        raise Violation("range-changed", "searching %r changed the list" % bad)
    other = list(data)
    if other:
        other[i] = bad
    else:
        other = [bad]
    got = (subject == other, subject != other, other == subject, subject < other, subject > other, subject <= other, subject >= other)
    want = (False, True, False, data < other, data > other, data <= other, data >= other)
    if got != want:
        raise Violation("range-compare", "%s(%r) against %r: %r instead of %r" % (kind, data, other, got, want))
    # an object that converts to an integer is stored as that integer or refused
    x = rng.choice([Index(bad), Index(5), 3.0, float(5), "7", b"7"])
    try:
        subject.append(x)
    except Exception:
        pass
    else:
        tail = subject.pop()
        if not isinstance(x, (Index, float)) or tail != (x.n if isinstance(x, Index) else int(x)):
            raise Violation("range-convert", "append(%r) stored %r" % (x, tail))
    if subject.to_list() != data:
        raise Violation("range-changed", "append(%r)" % (x,))
    ctx.count("out-of-range searches and comparisons")
    ctx.sample("%s(%r) and %r" % (kind, data, bad))
