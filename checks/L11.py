"""L11: copies, slices and conversions are independent of their source; self-arguments act on a snapshot."""
import itertools
import operator

from lib import large, lists
from lib.lists import BIG_SIZES, BOUNDARY_SIZES, KINDS, diff, same_items
from lib.monitor import Violation

RULE = ("Pool cases keep up to ten containers of all five types and built-in lists, each with its own model; every step "
        "derives one container from another (copy, slice, +, *, construction, conversion), feeds one into another "
        "(extend, +=, slice assignment) or changes one, then all of them are compared with their models, so that any "
        "sharing shows. Self cases run one operation whose argument is the list itself or something read from it, next to "
        "the same on a built-in list. Sole cases use operands that only a tuple refers to, and compare both afterwards. distinct_nontrivial counts distinct (operation, types, sizes, slice) steps.")
ASSUMPTIONS = ["element values fit every integer list of the pool", "the host interpreter's list is the reference"]

POOL_KINDS = list(KINDS) + ["list"]


def shards(tier, seed):
    n = {"quick": 9000, "thorough": 200000}[tier]
    r = [dict(name="pool-int", lo=0, hi=n, split=10, mode="pool", ints=True),
         dict(name="pool-object", lo=0, hi=n, split=10, mode="pool", ints=False),
         dict(name="asan-pool-int", lo=0, hi=n // 6, split=4, mode="pool", ints=True, variant="asan"),
         dict(name="asan-pool-object", lo=0, hi=n // 6, split=4, mode="pool", ints=False, variant="asan")]
    for k in KINDS:
        r.append(dict(name="self-" + k, kind=k, lo=0, hi=2 * n, split=4, mode="self"))
        r.append(dict(name="sole-" + k, kind=k, lo=0, hi=n // 2, split=1, mode="sole"))
        r.append(dict(name="asan-self-" + k, kind=k, lo=0, hi=n // 3, split=2, mode="self", variant="asan"))
    r += large.shards("copies", KINDS, tier)
    return r


def run_case(ctx, shard, case):
    if shard.get("mode") == "large":
        return large.run(ctx, shard)
    if shard["mode"] == "pool":
        pool_case(ctx, shard)
    elif shard["mode"] == "sole":
        sole_case(ctx, KINDS[shard["kind"]])
    else:
        self_case(ctx, KINDS[shard["kind"]])


class Box:
    serial = 0

    def __init__(self, c, model, label):
        self.c, self.model, self.label = c, model, label

    @property
    def kind(self):
        return KINDS.get(self.label)


def contents(rng, box):
    if box.kind is None:
        return list(box.c), "list"
    return lists.read(rng, box.kind, box.c)


def pool_case(ctx, shard):
    rng = ctx.rng
    if shard["ints"]:
        names = ["IntArrayList", "IntArrayList", "BigIntArrayList", "IntLinkedList", "ObjectArrayList", "ObjectLinkedList",
                 "list"]
        values = lists.Values(rng, KINDS["IntArrayList"])
    else:
        names = ["ObjectArrayList", "ObjectLinkedList", "list"]
        values = lists.Values(rng, KINDS["ObjectArrayList"])
    pool, log = [], []

    def trace():
        return "\n".join("    " + t for t in log[-50:])

    def add(c, model, label, what):
        if len(pool) >= 10:
            pool.pop(rng.randrange(len(pool)))
        pool.append(Box(c, model, label))
        log.append(what)

    def make(label, source):
        return list(source) if label == "list" else KINDS[label].cls(source)

    def check(what):
        for b in pool:
            got, how = contents(rng, b)
            want = b.model
            if b.kind is not None and b.kind.is_int:
                ok = got == want and all(type(x) is int for x in got)
            elif shard["ints"]:
                ok = got == want
            else:
                ok = same_items(KINDS["ObjectArrayList"], got, want)
            if not ok or len(b.c) != len(want):
                raise Violation("shared-" + what, "after %s a %s holds (%s): %s\n%s" % (log[-1], b.label, how,
                                                                                   diff(got, want), trace()))
            ctx.count("containers compared")

    for _ in range(2):
        label = rng.choice(names)
        data = values.many(rng.choice(BOUNDARY_SIZES[:-3]))
        add(make(label, data), list(data), label, "%s(%.200r)" % (label, data))
    for step in range(24):
        a = rng.choice(pool)
        b = rng.choice(pool)
        r = rng.random()
        ctx.mark(log[-1])
        n = len(a.model)
        if r < 0.40:  # derive
            how = rng.choice(["copy", "slice", "full", "add", "add-list", "mul", "rmul", "construct", "convert", "iter",
                              "to_list", "imul-copy", "copy.copy", "reversed"])
            label = a.label
            if how in ("copy", "imul-copy"):
                c, m = a.c.copy(), list(a.model)
            elif how == "copy.copy":
                c, m = make(label, a.c), list(a.model)
            elif how == "slice":
                sl = lists.some_slice(rng, n, [None, 1, 2, -1, -3])
                c, m, label = a.c[sl], a.model[sl], "list"
            elif how == "full":
                c, m, label = a.c[:], a.model[:], "list"
            elif how == "add":
                same = [x for x in pool if x.label == a.label]
                b = rng.choice(same)
                c, m = a.c + b.c, a.model + b.model
            elif how == "add-list":
                same = [x for x in pool if x.label == "list"]
                if not same:
                    continue
                b = rng.choice(same)
                c, m, label = a.c + b.c, a.model + b.model, "list"
            elif how in ("mul", "rmul"):
                k = rng.choice([0, 1, 1, 2, 3])
                if n * k > 2000:
                    continue
                c, m = (a.c * k if how == "mul" else k * a.c), a.model * k
            elif how == "construct":
                c, m = make(label, a.c), list(a.model)
            elif how == "convert":
                label = rng.choice(names)
                c, m = make(label, a.c), list(a.model)
            elif how == "iter":
                label = rng.choice(names)
                c, m = make(label, iter(a.c)), list(a.model)
            elif how == "reversed":
                label = rng.choice(names)
                c, m = make(label, reversed(a.c)), a.model[::-1]
            else:
                c, m, label = (a.c.to_list() if a.kind else list(a.c)), list(a.model), "list"
            if c is a.c or c is b.c:
                raise Violation("same-object", "%s of a %s is the list itself\n%s" % (how, a.label, trace()))
            if type(c).__name__ != label:
                raise Violation("type-" + how, "%s of a %s is a %s\n%s" % (how, a.label, type(c).__name__, trace()))
            if how == "imul-copy" and n * 2 < 2000:
                c *= 2
                m = m * 2
            key = how
            add(c, m, label, "%s of a %s(%d) -> %s" % (how, a.label, n, label))
        elif r < 0.65:  # feed
            how = rng.choice(["extend", "iadd", "setslice", "extend-iter", "extend-slice", "init"])
            if len(a.model) + len(b.model) > 1500:
                continue
            if how == "extend":
                source = list(b.model)
                a.c.extend(b.c)
                a.model.extend(source)
            elif how == "iadd":
                source = list(b.model)
                L = a.c
                L += b.c
                if L is not a.c:
                    raise Violation("iadd-other-object", trace())
                a.model.extend(source)
            elif how == "setslice":
                sl = lists.some_slice(rng, n, [None, 1])
                source = list(b.model)
                a.c[sl] = b.c
                a.model[sl] = source
            elif how == "extend-iter":
                if a is b:
                    continue
                a.c.extend(iter(b.c))
                a.model.extend(list(b.model))
            elif how == "extend-slice":
                sl = lists.some_slice(rng, len(b.model), [None, 1, 2, -1])
                a.c.extend(b.c[sl])
                a.model.extend(b.model[sl])
            else:
                a.c.__init__(b.c)
                a.model[:] = [] if a is b else list(b.model)  # as a list does
            key = how
            log.append("%s: %s(%d) with %s(%d)" % (how, a.label, n, b.label if a is not b else "itself", len(b.model)))
        else:  # change one of them
            if a.kind is None:
                v = values.one()
                a.c.append(v)
                a.model.append(v)
                key = "list.append"
                log.append("append to a list")
            else:
                kind = a.kind
                if shard["ints"] and not kind.is_int:  # keeps every element an integer
                    kind = lists.Kind(kind.cls, lists.I32, kind.linked, False)
                op = lists.gen_op(rng, kind, values, a.model, 400)
                log.append("%s(%d).%s(%.150s)" % (a.label, n, op.name, op.desc))
                ss, rs = lists.outcome(op.fn, a.c, "S")
                if not (ss == "raise" and op.allow and isinstance(rs, op.allow)):
                    sm, rm = lists.outcome(op.fn, a.model, "M")
                    if sm != ss:
                        raise Violation("outcome-" + op.name, "%s, a list %s\n%s" % (lists.show(ss, rs),
                                                                                  lists.show(sm, rm), trace()))
                key = op.name
        check(key)
        ctx.count("step " + key)
        ctx.distinct(key, a.label, b.label, n, len(b.model))
    ctx.sample(trace())


# -- the list as its own argument ---------------------------------------------------------------
def self_ops(rng, kind, n):
    """(name, description, function of a container; what it returns is compared by elements)"""
    sl, s2 = lists.some_slice(rng, n, [None, 1]), lists.some_slice(rng, n, [None, 1])
    st = lists.some_slice(rng, n, [2, 3, -1, -2])
    k = rng.randrange(n + 2)

    def extend(src):
        def fn(L):
            L.extend(src(L))
        return fn

    def iadd(src):
        def fn(L):
            M = L
            M += src(L)
            if M is not L:
                raise AssertionError("another object")
        return fn

    def setslice(src):
        def fn(L):
            L[sl] = src(L)
        return fn

    def init(src):
        def fn(L):
            L.__init__(src(L))
        return fn
    sources = [("itself", lambda L: L), ("slice %r" % s2, lambda L: L[s2]), ("slice %r" % st, lambda L: L[st]),
               ("reversed", reversed), ("islice %d" % k, lambda L: itertools.islice(L, k)),
               ("copy", lambda L: L.copy()), ("list", list), ("tuple", tuple), ("L+L", lambda L: L + L),
               ("L*2", lambda L: L * 2)]
    only_slice = [("iterator", iter), ("generator", lambda L: (x for x in L)), ("map", lambda L: map(lambda x: x, L)),
                  ("filtered", lambda L: (x for i, x in enumerate(L) if i % 2))]
    r = []
    for name, src in sources:
        r.append(("extend", name, extend(src)))
        r.append(("iadd", name, iadd(src)))
    for name, src in sources + only_slice:
        r.append(("setslice", "%r = %s" % (sl, name), setslice(src)))
    r += [("add", "", lambda L: L + L), ("add-slice", "", lambda L: L + L[s2]),
          ("eq", "", lambda L: [L == L, L != L, L <= L, L >= L, L < L, L > L]),
          ("eq-copy", "", lambda L: [L == L.copy(), L != L.copy(), L <= L.copy(), L < L.copy()]),
          ("construct", "", lambda L: type(L)(L)), ("construct-iter", "", lambda L: type(L)(iter(L))),
          ("imul", "", lambda L: L.__imul__(3)), ("mul", "", lambda L: L * 3),
          ("init", "itself", lambda L: L.__init__(L)), ("init", "copy", init(lambda L: L.copy())),
          ("init", "list", init(list)), ("init", "slice", init(lambda L: L[s2]))]
    return r


def self_case(ctx, kind):
    rng = ctx.rng
    values = lists.Values(rng, kind)
    n = rng.choice(BOUNDARY_SIZES) if rng.random() < 0.93 else rng.choice(BIG_SIZES)
    data = values.many(n)
    sub = rng.random() < 0.25
    cls = type("Sub", (kind.cls,), {}) if sub else kind.cls
    base = type("ListSub", (list,), {}) if sub else list
    subject, model = cls(data), base(data)
    log = []

    def trace():
        return "%s%s(%.300r)\n%s" % (kind, " subclass" if sub else "", data, "\n".join("    %s %s" % t for t in log))

    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = self_ops(rng, kind, len(model))
        name, desc, fn = rng.choice(ops)
        if len(model) > 5000:
            break
        log.append((name, desc))
        ctx.mark("%s %s on %d elements" % (name, desc, len(model)))
        before = list(model)
        derived = name in ("add", "mul", "construct", "construct-iter", "add-slice")
        got = lists.outcome(lambda L, s: fn(L), subject, "S")
        want = lists.outcome(lambda L, s: fn(L), model, "M")
        if got[0] != want[0] or (got[0] == "raise" and not isinstance(got[1], type(want[1]))):
            raise Violation("%s-self-%s" % (kind, name), "%s %s: %s, a built-in list %s\n%s" % (
                name, desc, lists.show(*got), lists.show(*want), trace()))
        now, how = lists.read(rng, kind, subject)
        if not same_items(kind, now, list(model)):
            raise Violation("%s-self-%s" % (kind, name), "%s %s: %s\n%s" % (name, desc, diff(now, list(model)), trace()))
        if got[0] == "ok" and derived:
            if not same_items(kind, list(got[1]), list(want[1])) or got[1] is subject:
                raise Violation("%s-self-%s" % (kind, name), "%s gave %s\n%s" % (name, diff(list(got[1]), list(want[1])),
                                                                                trace()))
            # changing the result does not show in the source, nor the other way round
            before, result = list(model), list(want[1])
            got[1].reverse()
            got[1].extend(before[:3])
            if not same_items(kind, list(subject), before):
                raise Violation("%s-shared-%s" % (kind, name), trace())
            rest = list(got[1])
            subject.reverse()
            subject.append(values.one())
            if not same_items(kind, list(got[1]), rest):
                raise Violation("%s-shared-%s" % (kind, name), trace())
            model.reverse()
            model.append(subject[-1])
        elif got[0] == "ok" and name.startswith("eq") and got[1] != want[1]:
            raise Violation("%s-self-%s" % (kind, name), "%r instead of %r\n%s" % (got[1], want[1], trace()))
        ctx.count("self operation " + name)
        ctx.distinct(kind.name, name, desc, n)
    ctx.sample(trace())


def sole_case(ctx, kind):
    """Operands with a single reference, which another holder can still look at."""
    rng = ctx.rng
    values = lists.Values(rng, kind)
    data = [values.many(rng.choice(BOUNDARY_SIZES[:-3])) for _ in range(2)]
    other = rng.choice([kind.cls, kind.cls, kind.cls, list, type("Sub", (kind.cls,), {})])
    sub = rng.random() < 0.2
    first = type("Sub", (kind.cls,), {}) if sub else kind.cls
    a, b = rng.randrange(len(data[0]) + 1), rng.randrange(len(data[0]) + 1)
    sl = slice(a, b)
    k = rng.choice([0, 1, 1, 2, 3])
    name = rng.choice(sorted(SOLE))
    fn, shape, expect, changes = SOLE[name]
    if type(fn) is str:
        fn = kind.cls if fn == "__call__" else getattr(kind.cls, fn)
    what = "%s of %d and %s of %d elements held by a tuple only: %s %s x%d" % (
        first.__name__, len(data[0]), other.__name__, len(data[1]), name, sl, k)
    ctx.mark(what)
    models = [list(d) for d in data]
    want = expect(models[0], models[1], sl, k)
    # the only references are those of this tuple, also during the call
    holder = {"ab": lambda: (first(data[0]), other(data[1])), "a": lambda: (first(data[0]),), "ak": lambda: (first(data[0]), k),
              "as": lambda: (first(data[0]), sl), "asb": lambda: (first(data[0]), sl, other(data[1]))}[shape]()
    got = fn(*holder)
    if not changes and rng.random() < 0.5:
        got = fn(*holder)
    pair = [x for x in holder if x is not sl and type(x) is not int]
    if want is not None:
        have = got if type(got) in (list, bool, str) else got.to_list() if hasattr(got, "to_list") else list(got)
        if not (have == want if type(have) in (bool, str) or kind.is_int else same_items(kind, have, want)):
            raise Violation("sole-result-" + name, "%s gave %.300r instead of %.300r" % (what, have, want))
    if changes:
        models[0] = changes(models[0], models[1], sl, k)
    for c, m, label in zip(pair, models, ("first", "second")):
        have = c if type(c) is list else c.to_list()
        if not same_items(kind, have, m) or len(c) != len(m):
            raise Violation("sole-" + name, "%s: the %s operand holds %s" % (what, label, diff(have, m)))
    if got is pair[-1] and len(pair) > 1 or (got is pair[0]) != (name in ("iadd", "imul")):
        raise Violation("sole-identity-" + name, what)
    if hasattr(got, "append") and got is not pair[0]:  # and the result is a list of its own
        got.append(values.one())
        got.reverse()
        for c, m, label in zip(pair, models, ("first", "second")):
            have = c if type(c) is list else c.to_list()
            if not same_items(kind, have, m):
                raise Violation("sole-shared-" + name, "%s: changing the result changed the %s operand: %s" % (
                    what, label, diff(have, m)))
    ctx.count("sole operands compared", 2)
    ctx.distinct(kind.name, name, first is kind.cls, other.__name__, len(data[0]), len(data[1]))


def put_slice(m, n, sl, k):
    m = list(m)
    m[sl] = n
    return m


SOLE = {
    "extend": ("extend", "ab", lambda m, n, s, k: None, lambda m, n, s, k: m + n),
    "iadd": (operator.iadd, "ab", lambda m, n, s, k: None, lambda m, n, s, k: m + n),
    "add": (operator.add, "ab", lambda m, n, s, k: m + n, None),
    "setitem-slice": (operator.setitem, "asb", lambda m, n, s, k: None, put_slice),
    "delitem-slice": (operator.delitem, "as", lambda m, n, s, k: None, lambda m, n, s, k: put_slice(m, [], s, k)),
    "mul": (operator.mul, "ak", lambda m, n, s, k: m * k, None),
    "imul": (operator.imul, "ak", lambda m, n, s, k: None, lambda m, n, s, k: m * k),
    "getitem-slice": (operator.getitem, "as", lambda m, n, s, k: m[s], None),
    "copy": ("copy", "a", lambda m, n, s, k: list(m), None),
    "to_list": ("to_list", "a", lambda m, n, s, k: list(m), None),
    "construct": ("__call__", "a", lambda m, n, s, k: list(m), None),
    "list": (list, "a", lambda m, n, s, k: list(m), None),
    "tuple": (tuple, "a", lambda m, n, s, k: list(m), None),
    "reversed": (reversed, "a", lambda m, n, s, k: m[::-1], None),
    "iter": (iter, "a", lambda m, n, s, k: list(m), None),
    "repr": (repr, "a", lambda m, n, s, k: repr(m), None),
    "init": ("__init__", "ab", lambda m, n, s, k: None, lambda m, n, s, k: list(n)),
    "eq": (operator.eq, "ab", lambda m, n, s, k: m == n, None),
    "ne": (operator.ne, "ab", lambda m, n, s, k: m != n, None),
    "contains": (operator.contains, "ab", lambda m, n, s, k: n in m, None),
}
