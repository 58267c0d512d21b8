"""L12: the six comparisons against built-in lists, and against each other."""
import operator

from lib import large, lists
from lib.lists import BIG_SIZES, BOUNDARY_SIZES, KINDS
from lib.monitor import Violation

RULE = ("A case is a pair of element sequences (a common prefix of random length, then equal, shorter, or different at one "
        "position by a small or large amount) held by every meaningful pair of types; all six operators are evaluated in "
        "both directions and compared with the same operators on built-in lists, and with each other. Object cases use "
        "elements that count, raise, are incomparable, or answer with objects that are not booleans, or change the lists (a linked "
        "list may be compared by a copy taken when the call began). distinct_nontrivial "
        "counts distinct (types, lengths, position of the first difference, element class, answers).")
ASSUMPTIONS = ["the host interpreter's list comparison is the reference"]

OPS = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
MIRROR = {"==": "==", "!=": "!=", "<": ">", "<=": ">=", ">": "<", ">=": "<="}


def shards(tier, seed):
    n = {"quick": 16000, "thorough": 400000}[tier]
    r = []
    for k in KINDS:
        r.append(dict(name="pairs-" + k, kind=k, lo=0, hi=n, split=4, mode="pairs"))
        r.append(dict(name="asan-pairs-" + k, kind=k, lo=0, hi=n // 6, split=2, mode="pairs", variant="asan"))
        r.append(dict(name="others-" + k, kind=k, lo=0, hi=n // 4, split=2, mode="others"))
        r.append(dict(name="hostile-" + k, kind=k, lo=0, hi=n // 2, split=2, mode="hostile"))
        r.append(dict(name="changing-" + k, kind=k, lo=0, hi=n // 2, split=1, mode="changing"))
        r.append(dict(name="asan-hostile-" + k, kind=k, lo=0, hi=n // 8, split=1, mode="hostile", variant="asan"))
    r += large.shards("compare", KINDS, tier)
    return r


def run_case(ctx, shard, case):
    if shard.get("mode") == "large":
        return large.run(ctx, shard)
    {"pairs": pairs_case, "others": others_case, "hostile": hostile_case,
     "changing": changing_case}[shard["mode"]](ctx, KINDS[shard["kind"]])


def answer(op, a, b):
    try:
        return "ok", op(a, b)
    except Exception as e:
        return "raise", e


def make_pair(rng, kind, values):
    n = rng.choice(BOUNDARY_SIZES) if rng.random() < 0.93 else rng.choice(BIG_SIZES[:10])
    a = values.many(n)
    b = [values.fresh(x) if rng.random() < 0.5 else x for x in a]
    shape = rng.choice(["equal", "prefix", "prefix", "differ", "differ", "differ", "near", "unrelated", "empty", "first",
                        "last", "two"])
    if shape == "prefix":
        k = rng.choice([1, 1, 2, n]) if n else 0
        b = b[:max(0, n - k)]
    elif shape == "differ" and n:
        b[rng.randrange(n)] = values.one()
    elif shape == "first" and n:
        b[0] = values.one()
    elif shape == "last" and n:
        b[-1] = values.one()
    elif shape == "two" and n:
        b[rng.randrange(n)] = values.one()
        b[rng.randrange(n)] = values.one()
        b = b[:rng.randrange(n + 1)]
    elif shape == "near" and n and kind.is_int:
        i = rng.randrange(n)
        lo, hi = kind.bounds
        b[i] = min(hi, max(lo, b[i] + rng.choice([-1, 1, 2 ** 16, -2 ** 16, 2 ** 31, -2 ** 31, 2 ** 32, -2 ** 32])))
    elif shape == "unrelated":
        b = values.many(rng.choice(BOUNDARY_SIZES[:20]))
    elif shape == "empty":
        b = []
    if rng.random() < 0.5:
        a, b = b, a
    return a, b, shape


def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x is not y and not x == y:
            return i
    return -1


def compare_all(ctx, label, x, y, a, b, describe):
    """x and y hold a and b; a built-in list decides."""
    got = {}
    for name, op in OPS.items():
        ctx.mark("%s %s %s" % (label, name, describe()[:300]))
        s, r = answer(op, x, y)
        t, w = answer(op, a, b)
        got[name] = (s, r)
        if s != t or (s == "ok" and not (r is w)):
            if not (s == t == "ok" and type(w) is not bool and r == w):
                raise Violation("%s-%s" % (label, name), "%s %s is %s, built-in lists: %s\n%s" % (
                    label, name, lists.show(s, r), lists.show(t, w), describe()))
        if s == "raise" and not isinstance(r, type(w)):
            raise Violation("%s-%s" % (label, name), "%s raised %r, built-in lists: %r\n%s" % (name, r, w, describe()))
        ctx.count("answers compared")
    return got


def consistent(label, xy, yx, describe):
    for name in OPS:
        p, q = xy[name], yx[MIRROR[name]]
        if p[0] == q[0] == "ok" and bool(p[1]) != bool(q[1]):
            raise Violation("%s-mirror" % label, "a %s b is %r, b %s a is %r\n%s" % (name, p[1], MIRROR[name], q[1],
                                                                                 describe()))
    v = {k: bool(r) for k, (s, r) in xy.items() if s == "ok"}
    if len(v) == 6:
        if v["=="] == v["!="] or v["<="] != (v["<"] or v["=="]) or v[">="] != (v[">"] or v["=="]) \
                or v["<"] + v["=="] + v[">"] != 1:
            raise Violation("%s-consistency" % label, "%r\n%s" % (v, describe()))
    elif "==" in v and "!=" in v and v["=="] == v["!="]:
        raise Violation("%s-consistency" % label, "%r\n%s" % (v, describe()))


class ListSub(list):
    pass


def total(rng, kind, values):
    """Elements that are totally ordered, so that the consistency rules apply."""
    if kind.is_int:
        return values
    what = rng.choice(["int", "str", "float", "tuple", "wide"])
    make = {"int": lambda: rng.randrange(-4, 4), "str": lambda: "".join(rng.choice("ab") for _ in range(rng.randrange(4))),
            "float": lambda: rng.choice([0.0, 1.5, -2.5, 1e300, float("inf")]),
            "tuple": lambda: (rng.randrange(3), rng.randrange(3)), "wide": lambda: rng.randrange(-2 ** 70, 2 ** 70)}[what]
    values.pool = [make() for _ in range(rng.choice([2, 5, 30]))]
    return values


def pairs_case(ctx, kind):
    rng = ctx.rng
    values = total(rng, kind, lists.Values(rng, kind))
    a, b, shape = make_pair(rng, kind, values)

    def describe():
        return "%s  a = %.600r\n  b = %.600r" % (shape, a, b)

    x, y = kind.cls(a), kind.cls(b)
    sub = type("Sub", (kind.cls,), {})
    ways = [("same", x, y), ("list", x, list(b)), ("left-list", list(a), y)]
    ways.append(rng.choice([("listsub", x, ListSub(b)), ("left-sub", sub(a), y), ("right-sub", x, sub(b)),
                            ("subs", sub(a), sub(b)), ("self", x, x)]))
    for label, p, q in ways:
        label = "%s-%s" % (kind, label)
        if label.endswith("-self"):
            xy = compare_all(ctx, label, x, x, a, a, describe)
            yx = xy
        else:
            xy = compare_all(ctx, label, p, q, a, b, describe)
            yx = compare_all(ctx, label + "-swapped", q, p, b, a, describe)
        consistent(label, xy, yx, describe)
        ctx.distinct(label, len(a), len(b), first_difference(a, b), [bool(r[1]) for r in xy.values() if r[0] == "ok"])
    if x.to_list() != a or y.to_list() != b:
        raise Violation("%s-changed" % kind, describe())
    ctx.sample(describe())


class Thing:
    def __len__(self):
        return 0


class NotSized:
    """Item access without a length: no sequence."""

    def __getitem__(self, i):
        raise IndexError


class EqAll:
    def __eq__(self, other):
        return "yes"

    def __ne__(self, other):
        return "no"

    def __lt__(self, other):
        return "lt"

    __hash__ = None


def others_case(ctx, kind):
    """Against things that are no sequences and against sequences of other types: never equal to the former, and the
    answers agree with each other for the latter."""
    rng = ctx.rng
    values = total(rng, kind, lists.Values(rng, kind))
    data = values.many(rng.choice([0, 0, 1, 2, 5, 9, 33]))
    x = kind.cls(data)
    if rng.random() < 0.5:
        other = rng.choice([None, 0, len(data), 1.5, object(), {}, set(), frozenset(data if kind.is_int else ()), int, Thing(),
                            NotSized(), iter(data), NotImplemented, Ellipsis, kind.cls, lambda: 0, 3j, {1: 2},
                            {i: v for i, v in enumerate(data)}, Exception(), data.__iter__, (v for v in data)])
        ctx.mark("%r with %r" % (data, other))
        for p, q in ((x, other), (other, x)):
            s, r = answer(operator.eq, p, q)
            t, u = answer(operator.ne, p, q)
            if s == "ok" and (r is not False or u is not True):
                raise Violation("%s-nonsequence-equal" % kind, "%.200r == %.100r gives %r, != gives %r" % (p, q, r, u))
            if s == "raise":
                raise Violation("%s-nonsequence-raised" % kind, "%.200r == %.100r raised %r" % (p, q, r))
            for name in ("<", "<=", ">", ">="):
                s, r = answer(OPS[name], p, q)
                if s == "ok" or not isinstance(r, TypeError):
                    raise Violation("%s-nonsequence-order" % kind, "%.200r %s %.100r %s" % (p, name, q, lists.show(s, r)))
            ctx.count("comparisons with non-sequences", 6)
        ctx.distinct(kind.name, type(other).__name__, len(data))
        return
    if rng.random() < 0.3:
        # an operand that has its own opinion gets to give it, as with a list
        e = EqAll()
        for name, want in (("==", "yes"), ("!=", "no"), (">", "lt")):
            for L in (x, list(data)):
                got = answer(OPS[name], L, e)
                if L is x and name in ("==", "!=") and got[0] == "ok" and got[1] in (True, False):
                    continue
                if got[0] == "ok" and got[1] != want and L is not x:
                    raise Violation("reference", repr(got))
        for p in ("==", "!="):
            if answer(OPS[p], e, x) != answer(OPS[p], e, data):
                raise Violation("%s-reflected" % kind, repr(answer(OPS[p], e, x)))
        return
    data2, b, shape = make_pair(rng, kind, values)
    other = [k for k in KINDS.values() if k is not kind]
    if kind.is_int:
        b = [min(lists.I32[1], max(lists.I32[0], v)) for v in b]
    builders = [tuple, ] + [k.cls for k in other if not k.is_int or all(type(v) is int and lists.I32[0] <= v <= lists.I32[1]
                                                                       for v in b)]
    x, y = kind.cls(data2), rng.choice(builders)(b)

    def describe():
        return "%s(%.300r) and %s(%.300r)" % (kind, data2, type(y).__name__, b)

    ctx.mark(describe())
    xy = {n: answer(op, x, y) for n, op in OPS.items()}
    yx = {n: answer(op, y, x) for n, op in OPS.items()}
    consistent("%s-%s" % (kind, type(y).__name__), xy, yx, describe)
    if xy["=="][0] == "ok" and xy["=="][1] and data2 != b:
        raise Violation("%s-%s-equal" % (kind, type(y).__name__), describe())
    for n in ("<", "<=", ">", ">="):
        if xy[n][0] == "ok" and bool(xy[n][1]) != OPS[n](data2, b):
            raise Violation("%s-%s-order" % (kind, type(y).__name__), "%s gives %r\n%s" % (n, xy[n][1], describe()))
        if xy[n][0] == "raise" and not isinstance(xy[n][1], TypeError):
            raise Violation("%s-%s-order" % (kind, type(y).__name__), "%s raised %r\n%s" % (n, xy[n][1], describe()))
    ctx.count("comparisons with other sequences", 12)
    ctx.distinct(kind.name, type(y).__name__, shape, len(data2), len(b), first_difference(data2, b))


class Boom(Exception):
    pass


class Odd:
    """An element with a programmed answer to each comparison: a value, an exception or NotImplemented."""

    def __init__(self, n, plan):
        self.n, self.plan = n, plan

    def _do(self, name, other):
        r = self.plan.get(name, NotImplemented)
        if isinstance(r, BaseException):
            raise r
        return r

    def __eq__(self, other):
        return self._do("==", other)

    def __ne__(self, other):
        return self._do("!=", other)

    def __lt__(self, other):
        return self._do("<", other)

    def __le__(self, other):
        return self._do("<=", other)

    def __gt__(self, other):
        return self._do(">", other)

    def __ge__(self, other):
        return self._do(">=", other)

    __hash__ = None

    def __repr__(self):
        return "Odd(%d, %r)" % (self.n, self.plan)


class Truth:
    def __init__(self, value):
        self.value = value

    def __bool__(self):
        if isinstance(self.value, BaseException):
            raise self.value
        return self.value

    def __repr__(self):
        return "Truth(%r)" % self.value


def odd(rng, n, exc):
    def ans():
        return rng.choice([True, False, NotImplemented, exc, 1, 0, "x", "", None, Truth(True), Truth(False), Truth(exc), []])
    return Odd(n, {name: ans() for name in OPS})


def hostile_case(ctx, kind):
    """Elements that raise, are incomparable or answer oddly; integer lists meet them in the built-in list."""
    rng = ctx.rng
    exc = Boom("comparison")
    values = lists.Values(rng, kind)
    n = rng.choice([1, 2, 3, 5, 9, 17, 33])
    a = values.many(n)
    b = list(a)
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randrange(n)
        v = rng.random()
        if v < 0.5:
            b[i] = odd(rng, i, exc)
        elif kind.is_int:
            b[i] = rng.choice([a[i] + 0.5, float(a[i]), bool(a[i]), str(a[i]), None, 2 ** 64 + a[i], 2 ** 32 + a[i],
                               float("nan"), a[i] + 0j, [a[i]], 2 ** 100, -2 ** 100, float("inf")])
        else:
            b[i] = rng.choice([float("nan"), None, object(), "x", 3j])
        if not kind.is_int and rng.random() < 0.4:
            a[i] = odd(rng, -i, exc)
    if rng.random() < 0.3:
        b = b[:rng.randrange(n + 1)]

    def describe():
        return "a = %.400r\n  b = %.400r" % (a, b)

    x = kind.cls(a)
    y = list(b) if kind.is_int or rng.random() < 0.5 else kind.cls(b)
    sides = [(x, y, a, b, "left")]
    if type(y) is not list or not any(type(v) is Odd for v in a):
        # (with a list on the left Python swaps the sides, which shows when elements of both sides have opinions)
        sides.append((y, x, b, a, "right"))
    for p, q, r, s, label in sides:
        for name, op in OPS.items():
            ctx.mark("%s %s" % (label, name))
            st, got = answer(op, p, q)
            wt, want = answer(op, r, s)
            what = "%s %s operand, %s: %s, built-in lists: %s\n%s" % (kind, label, name, lists.show(st, got),
                                                                      lists.show(wt, want), describe())
            if st != wt:
                raise Violation("%s-hostile" % kind, what)
            if st == "raise":
                if want is exc and got is not exc or not isinstance(got, type(want)):
                    raise Violation("%s-exception" % kind, what)
                ctx.count("raised comparisons compared")
                continue
            if type(want) is bool:
                if got is not want:
                    raise Violation("%s-hostile" % kind, what)
            elif got is not want:
                t1, t2 = answer(lambda u, v: bool(u), got, 0), answer(lambda u, v: bool(u), want, 0)
                if t1 != t2:
                    raise Violation("%s-hostile" % kind, what)
            ctx.count("odd comparisons compared")
            ctx.distinct(kind.name, label, name, st, n, repr(b[:3])[:60])
    ctx.sample(describe())


class Changer:
    """Equal to everything, and changes the lists that are compared while it says so."""
    plan = None

    def __init__(self, at):
        self.at = at

    def __eq__(self, other):
        if Changer.plan is not None:
            Changer.plan(self.at)
        return True

    def __repr__(self):
        return "Changer(%d)" % self.at


def changing_case(ctx, kind):
    """Lists that change while they are compared: the answer follows the lists as they then are (or, for a linked list, as
    they were: it may be compared by a copy)."""
    rng = ctx.rng
    values = lists.Values(rng, kind)
    n = rng.choice([1, 2, 3, 5, 9, 17])
    a = values.many(n)
    b = list(a)
    marks = rng.sample(range(n), rng.choice([1, 1, min(2, n)]))
    for i in marks:
        (b if kind.is_int or rng.random() < 0.7 else a)[i] = Changer(i)
    if rng.random() < 0.3:
        b = b[:rng.randrange(1, n + 1)]
    if rng.random() < 0.3:
        b[rng.randrange(len(b))] = values.one()
    b += values.many(rng.choice([0, 0, 0, 1, 3]))
    spare = values.many(4)
    actions = {i: [(rng.choice("ab"), rng.choice(["pop", "pop0", "clear", "append", "insert", "set", "cut", "grow"]),
                    rng.randrange(n)) for _ in range(rng.choice([1, 1, 2]))] for i in range(n)}
    both_own = not kind.is_int and rng.random() < 0.5

    def act(L, how, k):
        if how == "pop" and len(L):
            L.pop()
        elif how == "pop0" and len(L):
            L.pop(0)
        elif how == "clear":
            L.clear()
        elif how == "append":
            L.append(spare[0])
        elif how == "insert":
            L.insert(0, spare[1])
        elif how == "set" and k < len(L):
            L[k] = spare[2]
        elif how == "cut":
            del L[k:]
        elif how == "grow":
            L.extend(spare)

    def run(op, x, y, left, right):
        """x and y are compared, left and right are what the callbacks change."""
        done = set()

        def plan(at):
            if at in done:
                return
            done.add(at)
            for side, how, k in actions[at]:
                act(left if side == "a" else right, how, k)
        Changer.plan = plan
        try:
            return answer(op, x, y)
        finally:
            Changer.plan = None

    for swap in (False, True):
        for name, op in OPS.items():
            ctx.mark(name)
            x, y = kind.cls(a), kind.cls(b) if both_own else list(b)
            got = run(op, *((y, x) if swap else (x, y)), x, y)
            accepted = []
            for cx in (False, True) if kind.linked else (False,):
                for cy in (False, True) if kind.linked and both_own else (False,):
                    p, q = list(a), list(b)
                    u, v = list(p) if cx else p, list(q) if cy else q
                    if swap and not both_own:  # Python asks the list on the left, and then the right one with the mirrored operator
                        accepted.append(run(OPS[MIRROR[name]], u, v, p, q))
                    else:
                        accepted.append(run(op, *((v, u) if swap else (u, v)), p, q))
            def plain(t):
                return (t[0], type(t[1]) if t[0] == "raise" else t[1] if type(t[1]) is bool else repr(t[1]))
            if plain(got) not in [plain(t) for t in accepted]:
                raise Violation("%s-changing" % kind, "%s %s: %s instead of %s\na = %.300r\nb = %.300r\ncallbacks: %r" % (
                    "swapped" if swap else "", name, lists.show(*got), " or ".join(lists.show(*t) for t in accepted), a, b,
                    {i: actions[i] for i in marks}))
            ctx.count("comparisons of changing lists compared")
            ctx.distinct("changing", kind.name, name, swap, n, sorted(h for i in marks for _, h, _ in actions[i]))
