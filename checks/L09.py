"""L09: iterators walked next to the built-in list's iterators while the lists change."""
import gc
import itertools
import sys
import weakref

from lib import large, lists
from lib.lists import KINDS
from lib.monitor import Violation

RULE = ("A case is one list and its built-in twin, up to eight forward and reversed iterators over both, and a random "
        "interleaving of steps of single iterators, whole consumptions (list, zip, unpacking, membership, for loops "
        "with changes in the body) and list operations; every step is compared with the step of the built-in list's "
        "iterator, exhausted iterators are stepped again after growth, and lists are dropped while iterators live; between "
        "cases make 2^8, 2^9, 2^15 and 2^16 changes (and a few more or less) between two steps, or as many iterators. "
        "distinct_nontrivial counts distinct (type, direction, position, length, last list operation) iterator steps.")
ASSUMPTIONS = ["the host interpreter's list iterators are the reference for iteration under change"]
END = object()


def shards(tier, seed):
    n = {"quick": 9000, "thorough": 220000}[tier]
    r = []
    for k in KINDS:
        r.append(dict(name="walk-" + k, kind=k, lo=0, hi=n, split=6))
        r.append(dict(name="asan-walk-" + k, kind=k, variant="asan", lo=0, hi=n // 6, split=3))
        r.append(dict(name="between-" + k, kind=k, lo=0, hi=300 if tier == "quick" else 6000, mode="between", split=2))
        r.append(dict(name="life-" + k, kind=k, lo=0, hi=600 if tier == "quick" else 6000, mode="life", split=1))
        r.append(dict(name="asan-life-" + k, kind=k, variant="asan", lo=0, hi=200 if tier == "quick" else 2000,
                      mode="life", split=1))
    r += large.shards("walk", KINDS, tier)
    return r


def same(kind, a, b):
    if a is END or b is END:
        return a is b
    return lists.same_item(kind, a, b)


def run_case(ctx, shard, case):
    if shard.get("mode") == "large":
        return large.run(ctx, shard)
    kind = KINDS[shard["kind"]]
    if shard.get("mode") == "life":
        return life_case(ctx, kind, case)
    if shard.get("mode") == "between":
        return between_case(ctx, kind)
    rng = ctx.rng
    values = lists.Values(rng, kind)
    n = rng.choice(lists.BOUNDARY_SIZES[:20])
    data = values.many(n)
    cls = kind.cls if rng.random() < 0.8 else type("Sub", (kind.cls,), {})
    subject, model = cls(data), list(data)
    log = []

    def trace():
        return "%s(%.300r)%s" % (kind, data, "".join("\n    %s %.200s" % t for t in log[-40:]))

    pairs = []  # (ours, reference, direction, number)
    serial = 0
    last = "start"
    mutate = rng.choice([0.0, 0.15, 0.4, 0.7])
    for step in range(90):
        r = rng.random()
        if not pairs or (r < 0.05 and len(pairs) < 8):
            d = rng.choice(["forward", "forward", "reversed"])
            mk = iter if d == "forward" else reversed
            if d == "forward" and rng.random() < 0.2:
                a, b = type(subject).__iter__(subject), iter(model)
            else:
                a, b = mk(subject), mk(model)
            if iter(a) is not a:
                raise Violation("iter-self", "iter(iterator) is another object\n" + trace())
            serial += 1
            pairs.append((a, b, d, serial))
            log.append(("new", "%s %d" % (d, serial)))
            continue
        if r < 0.05 + mutate * 0.6:
            op = lists.gen_op(rng, kind, values, model, 150)
            log.append((op.name, op.desc))
            ctx.mark(op.name)
            lists.step(ctx, kind, subject, model, op, trace) if cls is kind.cls else quiet_step(op, subject, model)
            if cls is not kind.cls:
                if subject.to_list() != model:
                    model[:] = subject.to_list()
            last = op.name
            continue
        i = rng.randrange(len(pairs))
        a, b, d, k = pairs[i]
        how = rng.random()
        if how < 0.85:
            times = rng.choice([1, 1, 1, 2, 5])
            for _ in range(times):
                ctx.mark("next %d" % k)
                x, y = next(a, END), next(b, END)
                log.append(("next", "%s %d -> %.60r" % (d, k, "end" if x is END else x)))
                if not same(kind, x, y):
                    raise Violation("%s-%s-step" % (kind, d), "iterator %d gave %.200r, a list iterator gives %.200r, list "
                                    "now %.300r\n%s" % (k, "end" if x is END else x, "end" if y is END else y, model,
                                                        trace()))
                ctx.count("iterator steps compared")
                ctx.count("ends compared", x is END)
                ctx.distinct(kind.name, d, len(model), last, x is END, repr(y)[:40] if step % 7 == 0 else "")
        elif how < 0.95:
            consume(ctx, rng, kind, values, a, b, d, k, subject, model, log, trace)
        else:
            pairs.pop(i)
            log.append(("drop", k))
    # an exhausted iterator stays exhausted, also after the list grew
    for a, b, d, k in pairs:
        if not all(same(kind, x, y) for x, y in itertools.zip_longest(list(a), list(b), fillvalue=END)):
            raise Violation("%s-%s-rest" % (kind, d), "the rest of iterator %d differs\n%s" % (k, trace()))
    grow = values.many(3)
    subject.extend(grow)
    for a, b, d, k in pairs:
        for _ in range(2):
            if next(a, END) is not END:
                raise Violation("%s-%s-revived" % (kind, d), "iterator %d gave an element after its end\n%s" % (k, trace()))
            ctx.count("ends compared")
    ctx.sample(trace())


def quiet_step(op, subject, model):
    """For subclasses only the iterators are compared."""
    ss, _ = lists.outcome(op.fn, subject, "S")
    if ss == "ok":
        lists.outcome(op.fn, model, "M")


def consume(ctx, rng, kind, values, a, b, d, k, subject, model, log, trace):
    how = rng.choice(["list", "islice", "zip", "in", "loop", "enumerate", "star", "max"])
    log.append((how, k))
    ctx.mark(how)
    if how == "list":
        x, y = list(a), list(b)
    elif how == "islice":
        m = rng.randrange(10)
        x, y = list(itertools.islice(a, m)), list(itertools.islice(b, m))
    elif how == "zip":
        m = rng.randrange(10)
        x, y = [p for p, _ in zip(a, range(m))], [p for p, _ in zip(b, range(m))]
    elif how == "in":
        v = lists._existing(rng, values, model)
        x, y = [v in a], [v in b]
        if x != y:
            raise Violation("%s-%s-in" % (kind, d), trace())
        return
    elif how == "enumerate":
        m = rng.randrange(10)
        x = [p for _, p in itertools.takewhile(lambda t: t[0] < m, enumerate(a))]
        y = [p for _, p in itertools.takewhile(lambda t: t[0] < m, enumerate(b))]
    elif how == "star":
        x, y = [*a], [*b]
    elif how == "max":
        x, y = sum(1 for _ in a), sum(1 for _ in b)
        if x != y:
            raise Violation("%s-%s-len" % (kind, d), "%d steps instead of %d\n%s" % (x, y, trace()))
        return
    else:  # a loop whose body changes the list
        x, y = [], []
        plan = [rng.choice(["none", "none", "append", "pop", "pop0", "insert0", "set", "del", "reverse", "clear", "setslice"])
                for _ in range(40)]
        v = values.many(40)
        for it, L, out in ((a, subject, x), (b, model, y)):
            for i, p in enumerate(plan):
                e = next(it, END)
                if e is END:
                    break
                out.append(e)
                try:
                    if p == "append":
                        L.append(v[i])
                    elif p == "pop":
                        L.pop()
                    elif p == "pop0":
                        L.pop(0)
                    elif p == "insert0":
                        L.insert(0, v[i])
                    elif p == "set":
                        L[i % 7] = v[i]
                    elif p == "del":
                        del L[i % 5]
                    elif p == "reverse":
                        L.reverse()
                    elif p == "clear" and i % 8 == 0:
                        L.clear()
                    elif p == "setslice":
                        L[i % 4:i % 6] = v[i:i + 2]
                except IndexError:
                    pass
        log.append(("body", plan[:len(y)]))
    if not lists.same_items(kind, x, y):
        raise Violation("%s-%s-%s" % (kind, d, how), "iterator %d: %s\n%s" % (k, lists.diff(x, y), trace()))
    ctx.count("consumptions compared")
    ctx.count("iterator steps compared", len(y))
    ctx.distinct(kind.name, d, how, len(y), len(model))


class Ref:
    __slots__ = ("n", "__weakref__")

    def __init__(self, n):
        self.n = n


def life_case(ctx, kind, case):
    """Iterators keep their list (and elements) alive, and let go of it at the end."""
    rng = ctx.rng
    n = rng.choice([0, 1, 2, 5, 17, 64, 130])
    objects = None
    if kind.is_int:
        data = [rng.randint(*kind.bounds) for _ in range(n)]
    else:
        data = [Ref(i) for i in range(n)]
        objects = [weakref.ref(o) for o in data]

    class Sub(kind.cls):
        pass

    L = Sub(data)
    w = weakref.ref(L)
    d = rng.choice(["forward", "reversed"])
    it = iter(L) if d == "forward" else reversed(L)
    expect = [getattr(x, "n", x) for x in (data if d == "forward" else data[::-1])]
    del data
    k = rng.randrange(n + 1)
    got = [getattr(next(it), "n", None) if not kind.is_int else next(it) for _ in range(k)]
    ctx.mark("%s %s %d of %d" % (kind, d, k, n))
    del L
    gc.collect()
    if w() is None:
        raise Violation("life-list-died", "%s %s: the list died with a live iterator at %d of %d" % (kind, d, k, n))
    if objects and any(o() is None for o in objects):
        raise Violation("life-element-died", "%s %s" % (kind, d))
    for x in it:
        got.append(x if kind.is_int else x.n)
    x = None
    if got != expect:
        raise Violation("life-elements", "%s %s: %s" % (kind, d, lists.diff(got, expect)))
    if rng.random() < 0.5:
        del it
        gc.collect()
        if w() is not None or (objects and any(o() is not None for o in objects)):
            raise Violation("life-kept", "%s %s: the list outlives its iterator" % (kind, d))
    ctx.count("iterators seen keeping their list alive")
    ctx.distinct("life", kind.name, d, k, n)


def between_case(ctx, kind):
    """A great many changes between two steps of an iterator, or a great many iterators of one list."""
    rng = ctx.rng
    n = rng.choice([2, 3, 5, 9, 40])
    base = 10000
    data = list(range(base, base + n)) if kind.is_int else ["e%d" % i for i in range(n)]
    L, M = kind.cls(data), list(data)
    d = rng.choice([iter, reversed])
    if rng.random() < 0.05:
        count = 140000
        ctx.mark("%s: %d iterators" % (kind, count))
        gc.collect()
        before = sys.getrefcount(L), sys.getallocatedblocks()
        for it in map(d, itertools.repeat(L, count)):
            pass
        it = next(map(d, [L]))
        for x in it:
            pass
        it = x = None
        gc.collect()
        after = sys.getrefcount(L), sys.getallocatedblocks()
        if after[0] != before[0] or after[1] - before[1] > 100:
            raise Violation("between-kept", "%s: %d iterators came and went, references %d to %d, blocks %d to %d" % (
                (kind, count, before[0], after[0], before[1], after[1])))
        ctx.count("iterators made and dropped", count)
        return
    its = [(d(L), d(M)) for _ in range(rng.choice([1, 2]))]
    log = []
    for round in range(rng.choice([1, 2, 3])):
        for a, b in its:
            for _ in range(rng.choice([0, 1, 1, 2, n // 2, n - 1])):
                x, y = next(a, END), next(b, END)
                if not same(kind, x, y):
                    raise Violation("between-step", "%s of %d, %s, %s: %r instead of %r" % (kind, n, d.__name__, log, x, y))
        changes = rng.choice([2 ** 8, 2 ** 8, 2 ** 9, 2 ** 16, 2 ** 16, 2 ** 15, 3 * 2 ** 8, 2 ** 10, 2 ** 12, 2 ** 17])
        if changes == 2 ** 16 and rng.random() < 0.3:
            changes = 2 ** 15  # two counted changes each
        changes += rng.choice([0, 0, 0, 0, -1, 1, 2, -2])
        ctx.mark("%s of %d, %s, %d changes" % (kind, n, d.__name__, changes))
        first = rng.choice(["insert", "pop", "both", "slice", "clear"])
        log.append((first, changes))
        v = base - 1 - round if kind.is_int else "x%d" % round
        at = rng.choice([0, 0, len(M) // 2])
        for X in (L, M):
            used = 1
            if first == "insert":
                X.insert(at, v)
            elif first == "pop" and len(X):
                X.pop(at if at < len(X) else 0)
            elif first == "both" and len(X):
                X.insert(0, X.pop())
                used = 2
            elif first == "slice":
                X[at:at + 1] = [v, v]
            elif first == "clear":
                old = list(X)
                X.clear()
                X.extend(old[::-1])
                used = 2
            else:
                used = 0
            push, drop = X.append, X.pop
            for _ in range((changes - used) // 2):
                push(v)
                drop()
            if (changes - used) % 2:
                push(v)
    for a, b in its:
        for _ in range(len(M) + 2):
            x, y = next(a, END), next(b, END)
            if not same(kind, x, y):
                raise Violation("between-step", "%s of %d, %s, %s: %r instead of %r" % (kind, n, d.__name__, log, x, y))
            ctx.count("steps after many changes")
    if L.to_list() != M:
        raise Violation("between-contents", "%s, %s" % (kind, log))
    ctx.distinct("between", kind.name, n, d.__name__, log)
