"""Operations whose callbacks change the list that the operation works on, against a built-in list with the same callbacks.

Where list itself leaves room (when bounds are adjusted, whether a linked list walks a copy), every order that keeps to the
documented meaning is accepted; the accepted outcomes are all computed by running built-in lists.
"""
import operator

from lib import lists
from lib.lists import same_items
from lib.monitor import Violation


class Env:
    """One run: the list, the actions left, and what the callbacks return."""

    def __init__(self, L, actions, budget):
        self.L, self.actions, self.budget, self.left = L, actions, budget, budget

    def fire(self, at):
        if self.left <= 0 or at not in self.actions:
            return
        self.left -= 1
        for how, k, v in self.actions[at]:
            act(self.L, how, k, v)


def act(L, how, k, v):
    n = len(L)
    if how == "append":
        L.append(v)
    elif how == "insert":
        L.insert(k, v)
    elif how == "pop" and n:
        L.pop()
    elif how == "pop0" and n:
        L.pop(0)
    elif how == "clear":
        L.clear()
    elif how == "set" and n:
        L[k % n] = v
    elif how == "cut":
        del L[k:]
    elif how == "cut0":
        del L[:k]
    elif how == "grow":
        L.extend([v] * 9)
    elif how == "reverse":
        L.reverse()
    elif how == "reinit":
        L.__init__([v, v])


ACTIONS = ["append", "insert", "pop", "pop", "pop0", "clear", "set", "cut", "cut0", "grow", "reverse", "reinit"]
ENV = None


class Idx:
    def __init__(self, v, at):
        self.v, self.at = v, at

    def __index__(self):
        ENV.fire(self.at)
        return self.v

    def __repr__(self):
        return "Idx(%d, %r)" % (self.v, self.at)


class Touch:
    """An element or a searched value whose comparison changes the list and then says what was planned."""

    def __init__(self, at, answer):
        self.at, self.answer = at, answer

    def __eq__(self, other):
        ENV.fire(self.at)
        return self.answer

    def __repr__(self):
        ENV.fire(("repr", self.at))
        return "Touch(%r, %r)" % (self.at, self.answer)

    __hash__ = None


class Dying:
    """An element that changes the list when it dies."""
    env = None

    def __del__(self):
        if ENV is not None and self.env is ENV:  # (not one of an earlier run)
            ENV.fire("d")

    def __repr__(self):
        return "Dying"


def plain(v):
    """v, or the elements of the list v, with a mark for the elements that cannot be the same in two runs."""
    return ["dying" if type(x) is Dying else x for x in v] if type(v) is list else "dying" if type(v) is Dying else v


def feed(data, at):
    """An iterator that changes the list between its elements."""
    for i, v in enumerate(data):
        ENV.fire((at, i))
        yield v
    ENV.fire((at, len(data)))


def show(v):
    global ENV
    keep, ENV = ENV, Env([], {}, 0)
    try:
        return "%.300r" % (v,)
    finally:
        ENV = keep


def ops(rng, kind, values, n):
    """(name, [functions: the operation, then other accepted orders of the same])"""
    i, j = rng.randrange(-n - 1, n + 2), rng.randrange(-n - 1, n + 2)
    a, b, v = Idx(i, "i"), Idx(j, "j"), values.one()
    data = values.many(rng.choice([0, 1, 2, 5, 9]))
    many = Idx(rng.randrange(-1, 4), "m")

    def setitem(L, i=a, x=v):
        L[i] = x

    def delitem(L):
        del L[a]

    def setslice(s, x):
        def fn(L):
            L[s()] = x()
        return fn

    def late(L):  # bounds taken when the new elements are known
        d = list(feed(data, "f"))
        L[i:j] = d

    def early(L):  # bounds of the list as it was, cut to the list as it is
        lo, hi, _ = slice(i, j).indices(len(L))
        d = list(feed(data, "f"))
        L[lo:max(lo, hi)] = d

    def early_max(L):
        lo, hi, _ = slice(i, j).indices(len(L))
        d = list(feed(data, "f"))
        lo = min(lo, len(L))
        L[lo:min(max(lo, hi), len(L))] = d

    def delslice(L):
        del L[a:b]

    def imul(L):
        L *= many
        return L is not None

    def mul(L):
        return list(L * many)

    def rmul(L):
        return list(many * L)

    def iadd(L):
        L += feed(data, "f")

    r = {
        "getitem": [lambda L: L[a]], "setitem": [setitem], "delitem": [delitem], "pop": [lambda L: L.pop(a)],
        "insert": [lambda L: L.insert(a, v)], "getslice": [lambda L: list(L[a:b])],
        "getslice-step": [lambda L: list(L[a:b:Idx(rng_step, "s")])],
        "delslice": [delslice], "setslice-index": [setslice(lambda: slice(a, b), lambda: list(data))],
        "setslice-feed": [setslice(lambda: slice(i, j), lambda: feed(data, "f")), late, early, early_max],
        "extend": [lambda L: L.extend(feed(data, "f"))], "iadd": [iadd], "mul": [mul], "imul": [imul],
        "init": [lambda L: L.__init__(feed(data, "f"))],
        "add": [lambda L: list(L + list(feed(data, "f")))],
    }
    rng_step = rng.choice([1, 2, -1, -2, 3])
    if kind.is_int:
        r["index-index"] = [lambda L: L.index(v, a), lambda L: L.index(v, a), lambda L: L.index(v, a, len(L))]
        r["index-both"] = [lambda L: L.index(v, a, b)]
    if kind.is_int:
        num = Idx(v, "v")

        def converted(f):
            return lambda L: f(L, operator.index(num))

        def setnum(L, x=num):
            L[a] = x

        def setnum_m(L):  # list converts nothing; the index comes first, or the value does
            x = operator.index(a)
            L[x] = operator.index(num)

        def setnum_v(L):
            x = operator.index(num)
            L[a] = x

        def setlate(L):  # the value is converted before the index is looked at
            x, y = operator.index(a), operator.index(num)
            L[x] = y

        def insert_m(L):
            x = operator.index(a)
            L.insert(x, operator.index(num))

        def insert_v(L):
            x = operator.index(num)
            L.insert(operator.index(a), x)
        r.update({"append-index": [lambda L: L.append(num), converted(lambda L, x: L.append(x))],
                  "insert-index": [lambda L: L.insert(a, num), insert_m, insert_v],
                  "setitem-index": [setnum, setnum_m, setnum_v, setlate],
                  "extend-index": [lambda L: L.extend([num, v, Idx(v, "w")]), extend_m(num, v)]})
    else:
        t = Touch("t", rng.random() < 0.4)
        # (a search may stop where the list ended when the call began)

        def clear_slice(L):
            L[i:j] = []

        def replace(L):
            L[i:j] = list(data)

        def imul0(L):
            L *= 0
        # the element that dies in here is only held by the list
        r.update({"clear": [lambda L: L.clear()], "clear-slice": [clear_slice], "replace": [replace], "imul0": [imul0],
                  "reinit": [lambda L: L.__init__(data)], "pop-drop": [lambda L: [L.pop(i), 1][1]],
                  "set-drop": [lambda L: setitem(L, i, v)], "del-drop": [lambda L: L.__delitem__(i)],
                  "delslice-drop": [lambda L: L.__delitem__(slice(i, j))]})
        r.update({"index": [lambda L: L.index(t), lambda L: L.index(t, 0, len(L))],
                  "index-bounds": [lambda L: L.index(t, max(0, i), max(0, j)),
                                   lambda L: L.index(t, max(0, i), min(max(0, j), len(L)))],
                  "count": [lambda L: L.count(t)], "contains": [lambda L: t in L], "remove": [lambda L: L.remove(t)],
                  "repr": [repr]})
    return r


def extend_m(num, v):
    def fn(L):
        L.append(operator.index(num))
        L.append(v)
        L.append(operator.index(Idx(v, "w")))
    return fn


DROPS = {"clear", "clear-slice", "replace", "imul0", "reinit", "pop-drop", "set-drop", "del-drop", "delslice-drop"}
# linked lists may walk what they had when the call began
WALKS = {"index", "index-bounds", "count", "contains", "repr"}


def run(fn, L, actions, budget):
    global ENV
    env = Env(L, actions, budget)
    for x in L:
        if type(x) is Dying:
            x.env = env
    x, ENV = None, env
    try:
        r = ("ok", fn(L))
    except Exception as e:
        r = ("raise", e.with_traceback(None))
    fired = budget - env.left
    ENV = None
    return r, fired


def on_copy(fn):
    """The operation on a copy, while the callbacks change the list itself."""
    return lambda L: fn(list(L))


def case(ctx, kind):
    global ENV
    rng = ctx.rng
    values = lists.Values(rng, kind)
    n = rng.choice([0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 64, 65])
    data = values.many(n)
    if not kind.is_int:
        values.pool = data or [1]
        for i in range(n):
            if rng.random() < 0.3:
                data[i] = Touch(i, rng.random() < 0.3)
    table = ops(rng, kind, values, n)
    name = rng.choice(sorted(table))
    fns = list(table[name])
    dying = not kind.is_int and n and (name in DROPS or rng.random() < 0.1)
    if dying:
        dying = 1 + (rng.randrange(n))

    def contents():
        d = list(data)
        if dying:
            d[dying - 1] = Dying()
        return d
    places = ["d", "i", "j", "m", "s", "v", "w", "t"] + [("f", i) for i in range(10)] + list(range(n)) + [("repr", i) for i in range(n)]
    spare = values.many(5)
    quiet = rng.random() < 0.1
    actions = {} if quiet else {p: [(rng.choice(ACTIONS), rng.randrange(n + 1), rng.choice(spare))
                                    for _ in range(rng.choice([1, 1, 2]))] for p in places if rng.random() < 0.7}
    budget = rng.choice([1, 1, 2, 3, 8])
    sub = rng.random() < 0.2
    cls = type("Sub", (kind.cls,), {}) if sub else kind.cls
    what = "%s: %s of %s" % (kind, name, show(data))
    ctx.mark(what[:1500])
    accepted = []
    for k, fn in enumerate(fns):
        if k == 0 and len(fns) > 1 and name != "setslice-feed" and kind.is_int:
            continue  # list would keep the object, the integer lists convert it
        M = contents()
        r, _ = run(fn, M, actions, budget)
        accepted.append(((r[0], plain(r[1])), plain(M)))
        if kind.linked and name in WALKS:
            M = contents()
            r, _ = run(on_copy(fn), M, actions, budget)
            accepted.append(((r[0], plain(r[1])), plain(M)))
    L = cls(contents())
    got, fired = run(fns[0], L, actions, budget)
    ENV = Env([], {}, 0)
    have = plain(L.to_list())
    got = (got[0], plain(got[1]))
    ok = False
    for r, M in accepted:
        if got[0] != r[0] or not same_items(kind, have, M):
            continue
        if got[0] == "raise":
            ok = type(got[1]) is type(r[1]) or isinstance(got[1], type(r[1]))
        elif type(r[1]) is list:
            ok = same_items(kind, got[1], r[1])
        elif kind.is_int or name in ("index", "index-bounds", "count", "contains", "repr") or r[1] is None or r[1] == "dying" or type(r[1]) is bool:
            ok = got[1] == r[1] and type(got[1]) is type(r[1])
        else:
            ok = got[1] is r[1]
        if ok:
            break
    if not ok:
        raise Violation("%s-reentrant-%s" % (kind, name), "%s\nactions: %s, at most %d\n%s, the list is then %s\naccepted: %s" % (
            what, show(actions), budget, show(got), show(have), "\n".join("%s, %s" % (show(r), show(M)) for r, M in accepted)))
    L.append(spare[0])  # still an ordinary list
    if not same_items(kind, [L.pop()], [spare[0]]) or len(L) != len(have):
        raise Violation("%s-reentrant-after-%s" % (kind, name), what)
    ENV = None
    ctx.count("operations on changing lists compared")
    ctx.count("changes made by callbacks", fired)
    if fired:
        ctx.distinct("reentrant", kind.name, name, n, fired, got[0], len(have))
