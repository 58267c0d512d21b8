"""L17: documented costs, measured as basic blocks run and memory requested or moved, for lists of every length."""
import math
import operator

from lib import costs
from lib.lists import I64, KINDS
from lib.monitor import Violation

RULE = ("The extension is compiled with -fsanitize-coverage=trace-pc and runs under a preload library that counts, for each "
        "measured call, the basic blocks of the extension that ran, the bytes moved and the bytes requested from the "
        "allocator. A case builds a list of 2000 to 60000 elements (now and then half a million) by a random history and "
        "measures operations of one topic: the ends of a linked list, steps of a walk, indexed access and pop from the end, "
        "growing by pieces of a random size, appending up to a size hint, whole-list operations, sorting of many "
        "distributions, use as a queue. Constant means at most 200 blocks, linear at most 2500 + 150 n blocks and 150000 + "
        "500 n bytes (3 times and more of what the project needs; a quadratic cost is far above). distinct_nontrivial "
        "counts distinct (type, topic, operation, size class).")
ASSUMPTIONS = ["the constant factors are not documented: the bounds leave a factor of three and more",
               "the storage that repr() of object lists asks for is not judged (it grows one string in place, as str += does)",
               "blocks run by the interpreter, by element methods and inside the C library are not counted",
               "AVX-512 paths are not part of the instrumented build"]


def shards(tier, seed):
    env = costs.shard_env()
    n = {"quick": 1200, "thorough": 40000}[tier]
    return [dict(name="costs-" + k, kind=k, lo=0, hi=n, split=3, variant="cost", env=env) for k in KINDS]


def setup(ctx, shard):
    global measure, threshold
    measure, threshold = costs.module().measure, costs.module().threshold


CONSTANT = 200


def constant(ctx, kind, what, n, call, *args, limit=CONSTANT, bytes_limit=4096):
    steps, moved, requests, size, largest, large, kept, result = measure(call, *args)
    ctx.count("measured_calls")
    ctx.maximum("steps_of_constant_operations", steps)
    ctx.distinct((kind.name, what, n.bit_length()))
    if steps > limit:
        raise Violation("cost", "%s: %s of %d elements takes %d steps" % (kind.name, what, n, steps))
    if size > bytes_limit or moved > bytes_limit:
        raise Violation("cost", "%s: %s of %d elements requests %d and moves %d bytes" % (kind.name, what, n, size, moved))
    return result


def linear(ctx, kind, what, n, call, *args, factor=1.0, storage=True, large_limit=None):
    steps, moved, requests, size, largest, large, kept, result = measure(call, *args)
    ctx.count("measured_calls")
    ctx.count("steps", steps)
    ctx.maximum("steps_per_element_of_linear_operations", round(steps / (n + 100) / factor, 1))
    ctx.distinct((kind.name, what, n.bit_length()))
    if steps > 2500 + 150 * factor * n:
        raise Violation("cost", "%s: %s with %d elements takes %d steps" % (kind.name, what, n, steps))
    if storage:
        ctx.maximum("bytes_per_element_of_linear_operations", round(size / (n + 2000), 1))
        ctx.maximum("moved_per_element_of_linear_operations", round(moved / (n + 2000) / factor, 1))
        if size > 150000 + 500 * n:
            raise Violation("cost", "%s: %s with %d elements requests %d bytes in %d pieces" % (kind.name, what, n, size, requests))
        if moved > 150000 + 500 * factor * n:
            raise Violation("cost", "%s: %s with %d elements moves %d bytes" % (kind.name, what, n, moved))
    if large_limit is not None:
        ctx.maximum("large_requests_while_growing", large)
        if large > large_limit:
            raise Violation("cost", "%s: %s with %d elements asks %d times for a large part of the final storage"
                            % (kind.name, what, n, large))
    return result


def numbers(rng, kind, n):
    lo, hi = kind.bounds or I64
    style = rng.choice(["wide", "small", "few", "sorted", "reversed", "sawtooth", "equal", "pipe", "runs", "almost", "killer"])
    if style == "wide":
        return style, [rng.randint(lo, hi) for _ in range(n)]
    if style == "small":
        return style, [rng.randrange(1000) for _ in range(n)]
    if style == "few":
        return style, [rng.choice((3, 5, -7)) for _ in range(n)]
    if style == "sorted":
        return style, list(range(-n // 2, n - n // 2))
    if style == "reversed":
        return style, list(range(n, 0, -1))
    if style == "sawtooth":
        p = rng.choice((2, 3, 17, 64, 1000))
        return style, [i % p for i in range(n)]
    if style == "equal":
        return style, [42] * n
    if style == "pipe":
        return style, list(range(n // 2)) + list(range(n - n // 2, 0, -1))
    if style == "runs":
        out = []
        while len(out) < n:
            a, m = rng.randrange(10 ** 6), rng.randrange(1, 200)
            out += range(a, a + m) if rng.random() < 0.5 else range(a + m, a, -1)
        return style, out[:n]
    if style == "almost":
        out = list(range(n))
        for _ in range(rng.randrange(1, 30)):
            out[rng.randrange(n)] = rng.randrange(n)
        return style, out
    # a median-of-three killer
    k = n // 2
    out = [0] * n
    for i in range(1, k + 1):
        if i % 2:
            out[i - 1] = i
            if i < k:
                out[i] = k + i
        out[k + i - 1] = 2 * i
    return style, out


def width(kind):
    return 4 if kind.bounds and kind.bounds != I64 else 8


def contents(rng, kind, n):
    style, data = numbers(rng, kind, n)
    if not kind.is_int and rng.random() < 0.5:
        data = [str(v) for v in data]
    return style, data


def size(rng):
    if rng.random() < 0.02:
        return rng.randrange(400000, 1200000)
    return rng.choice((2000, 4096, 10000, 20000, 30000, 60000)) + rng.randrange(-300, 300)


def built(rng, kind, data):
    """A list with these contents, and the way it came about."""
    c = kind.cls
    way = rng.choice(["new", "new", "extend", "front", "append", "copy", "add", "reverse", "halved", "slice", "mul", "cleared"])
    n = len(data)
    if way == "extend":
        L = c()
        L.extend(iter(data[:n // 3]))
        L += data[n // 3:n // 2]
        L.extend(c(data[n // 2:]))
    elif way == "front" and kind.linked:
        L = c()
        for v in reversed(data):
            L.insert(0, v)
    elif way == "append":
        L = c()
        for v in data:
            L.append(v)
    elif way == "copy":
        L = c(data).copy()
    elif way == "add":
        L = c(data[:n // 2]) + c(data[n // 2:])
    elif way == "reverse":
        L = c(data[::-1])
        L.reverse()
    elif way == "halved":
        L = c(data + data)
        del L[n:]
    elif way == "slice":
        L = c(data[:10])
        L[5:] = data[5:]
    elif way == "mul":
        L = c(data[:0] + [data[0]]) * n
        L[:] = data
    elif way == "cleared":
        L = c(data)
        L.clear()
        L.extend(data)
    else:
        way, L = "new", c(data)
    return way, L


def run_case(ctx, shard, case):
    kind = KINDS[shard["kind"]]
    topics = [whole, whole, whole, growth, growth, growth, sorting, sorting, walk, queue]
    topics += [ends, ends, ends] if kind.linked else [indexed, indexed, hints]
    ctx.rng.choice(topics)(ctx, kind, ctx.rng)


def ends(ctx, kind, rng):
    n = size(rng)
    data = contents(rng, kind, n)[1]
    way, L = built(rng, kind, data)
    ctx.mark("ends of a %s %d %s" % (kind.name, n, way))
    v = data[0]
    for _ in range(30):
        m = len(L)
        what = rng.choice(["append", "front", "back", "pop", "pop-1", "pop0", "del0", "del-1", "get0", "get-1", "set0", "set-1",
                           "extend", "iadd", "len", "near", "nearend", "dellast", "delfirst", "addfirst", "addlast"])
        f = {"append": (L.append, v), "front": (L.insert, rng.choice((0, -m, -m - 7)), v),
             "back": (L.insert, rng.choice((m, m + 5, 10 ** 12)), v), "pop": (L.pop,), "pop-1": (L.pop, -1), "pop0": (L.pop, 0),
             "del0": (operator.delitem, L, rng.choice((0, -m))), "del-1": (operator.delitem, L, rng.choice((-1, m - 1))),
             "get0": (operator.getitem, L, rng.choice((0, -m))), "get-1": (operator.getitem, L, rng.choice((-1, m - 1))),
             "set0": (operator.setitem, L, rng.choice((0, -m)), v), "set-1": (operator.setitem, L, rng.choice((-1, m - 1)), v),
             "extend": (L.extend, rng.choice(([v] * 3, (v,) * 3, kind.cls([v] * 3)))),
             "iadd": (operator.iadd, L, rng.choice(([v] * 3, kind.cls([v])))), "len": (len, L),
             "near": (L.insert, rng.choice((1, 2, 3)), v), "nearend": (L.insert, -rng.choice((1, 2, 3)), v),
             "dellast": (operator.delitem, L, slice(-3, None)), "delfirst": (operator.delitem, L, slice(0, 3)),
             "addfirst": (operator.setitem, L, slice(0, 0), [v] * 2),
             "addlast": (operator.setitem, L, slice(m, None), [v] * 2)}[what]
        constant(ctx, kind, what + " at an end", m, *f)


def walk(ctx, kind, rng):
    n = size(rng)
    way, L = built(rng, kind, contents(rng, kind, n)[1])
    back = rng.random() < 0.5
    ctx.mark("walk of a %s %d %s %s" % (kind.name, n, way, back))
    it = constant(ctx, kind, "an iterator", n, reversed if back else iter, L)
    for _ in range(20):
        if constant(ctx, kind, "a step of a walk", n, next, it, None) is None:
            return
        for _ in zip(range(rng.randrange(n // 10)), it):
            pass
        constant(ctx, kind, "a length hint", n, operator.length_hint, it)
    linear(ctx, kind, "the rest of a walk", n, list, it)
    linear(ctx, kind, "a walk", n, list, reversed(L) if back else iter(L))


def indexed(ctx, kind, rng):
    n = size(rng)
    data = contents(rng, kind, n)[1]
    way, L = built(rng, kind, data)
    v = data[0]
    ctx.mark("indexes of a %s %d %s" % (kind.name, n, way))
    for _ in range(30):
        m = len(L)
        what = rng.choice(["get", "set", "pop", "pop-1", "del-1", "len", "dellast", "slice"])
        i = rng.randrange(-m, m)
        j = rng.randrange(m)
        f = {"get": (operator.getitem, L, i), "set": (operator.setitem, L, i, v), "pop": (L.pop,), "pop-1": (L.pop, -1),
             "del-1": (operator.delitem, L, rng.choice((-1, m - 1))), "len": (len, L),
             "dellast": (operator.delitem, L, slice(-3, None)), "slice": (operator.getitem, L, slice(j, j + 3))}[what]
        constant(ctx, kind, what, m, *f)


def piece_maker(rng, kind, L, data):
    """A way to add data[i:j] at the end."""
    c = kind.cls
    way = rng.choice(["append", "extend", "extend", "tuple", "generator", "own", "other", "iadd", "iadd-own", "assign",
                      "assign-own", "insert", "mixed", "iter"])
    if way in ("append", "insert"):
        put = L.append if way == "append" else lambda v: L.insert(len(L), v)

        def add(i, j):
            for k in range(i, j):
                put(data[k])
    elif way == "extend":
        def add(i, j):
            L.extend(data[i:j])
    elif way == "tuple":
        def add(i, j):
            L.extend(tuple(data[i:j]))
    elif way == "generator":
        def add(i, j):
            L.extend(data[k] for k in range(i, j))
    elif way == "iter":
        def add(i, j):
            L.extend(iter(data[i:j]))
    elif way == "own":
        def add(i, j):
            L.extend(c(data[i:j]))
    elif way == "other":
        other = KINDS["ObjectLinkedList"].cls if rng.random() < 0.5 else KINDS["ObjectArrayList"].cls

        def add(i, j):
            L.extend(other(data[i:j]))
    elif way == "iadd":
        def add(i, j):
            nonlocal_L = L
            nonlocal_L += data[i:j]
    elif way == "iadd-own":
        def add(i, j):
            nonlocal_L = L
            nonlocal_L += c(data[i:j])
    elif way == "assign":
        def add(i, j):
            L[len(L):] = data[i:j]
    elif way == "assign-own":
        def add(i, j):
            L[len(L):len(L)] = c(data[i:j])
    else:
        adders = [piece_maker(rng, kind, L, data) for _ in range(3)]

        def add(i, j):
            adders[i % 3][1](i, j)
        way = "mixed of " + ", ".join(a[0] for a in adders)
    return way, add


def growth(ctx, kind, rng):
    n = size(rng)
    data = contents(rng, kind, n)[1]
    piece = rng.choice((1, 1, 2, 3, 7, 8, 16, 33, 100, 1000, n // 3 + 1))
    start = rng.choice(["new", "new", "hint", "cleared", "popped", "filled"])
    c = kind.cls
    if start == "hint" and not kind.linked:
        L = c(rng.choice((1, 10, 100)))
    elif start == "cleared":
        L = c(data[:100])
        L.clear()
    elif start == "popped":
        L = c(data[:300])
        while len(L):
            L.pop()
    elif start == "filled":
        L = c(data[:rng.randrange(1, 500)])
    else:
        start, L = "new", c()
    way, add = piece_maker(rng, kind, L, data)
    breathe = rng.random() < 0.3  # some elements go away between pieces
    ctx.mark("growth of a %s to %d by %d, %s, from %s" % (kind.name, n, piece, way, start))

    def grow():
        for i in range(0, n, piece):
            add(i, min(n, i + piece))
            if breathe:
                L.append(L.pop())
    threshold(n * width(kind) // 4)
    steps = 1.0 + 3.0 / piece  # what a piece costs on top of its elements
    linear(ctx, kind, "growth by %s %s" % ("one" if piece == 1 else "pieces", way.split(" ")[0]), n, grow, factor=steps, large_limit=60)
    ctx.count("grown_elements", n)


def hints(ctx, kind, rng):
    n = size(rng)
    data = contents(rng, kind, n)[1]
    c = kind.cls
    form = rng.choice(["hint", "iterable", "generator", "keywords", "again"])
    m = rng.randrange(100) if form != "hint" else 0
    if form == "hint":
        L = c(n)
    elif form == "iterable":
        L = c(data[:m], n)
    elif form == "generator":
        L = c((v for v in data[:m]), n)
    elif form == "keywords":
        L = c(exceptSize=n, iterable=data[:m])
    else:
        L = c(data[:m])
        L.__init__(data[:m], n)
    if len(L) != m:
        raise Violation("hint", "%s: %d elements instead of %d after construction with a hint" % (kind.name, len(L), m))
    ctx.mark("appending to a %s up to its hint %d, %s" % (kind.name, n, form))
    one = rng.random() < 0.7
    source = data[m:n]

    def fill_one():
        for v in source:
            L.append(v)

    def fill_pieces():
        for i in range(0, len(source), 50):
            L.extend(source[i:i + 50])
    steps, moved, requests, bytes_, largest, large, kept, _ = measure(fill_one if one else fill_pieces)
    ctx.count("measured_calls")
    ctx.distinct((kind.name, "hint", form, n.bit_length()))
    if largest >= max(2000, width(kind) * n // 4):
        raise Violation("hint", "%s with the hint %d (%s) requests %d bytes at once while %d elements are added"
                        % (kind.name, n, form, largest, n - m))
    if len(L) != n:
        raise Violation("hint", "%s: %d elements instead of %d" % (kind.name, len(L), n))


def bounds(rng, n):
    def bound():
        return rng.choice((None, 0, n, -1, -n, n // 2, n // 3, rng.randrange(-n, n)))
    return bound(), bound()


def whole(ctx, kind, rng):
    n = size(rng)
    data = contents(rng, kind, n)[1]
    way, L = built(rng, kind, data)
    c = kind.cls
    v = rng.choice((data[0], data[-1], data[n // 2], data[rng.randrange(n)], 77))
    absent = -12345 if kind.is_int or isinstance(data[0], int) else "absent"
    near = list(data)
    if rng.random() < 0.7:
        i = rng.choice((0, n - 1, rng.randrange(n)))
        near[i] = data[rng.randrange(n)]
    if rng.random() < 0.3:
        near = near[:-1]
    other = rng.choice((near, c(near), c(near)))
    lo, hi = bounds(rng, n)
    step = rng.choice((None, 1, 2, 3, -1, -1, -2, 7, -17))
    ops = {
        "in": (operator.contains, L, rng.choice((v, absent))), "count": (L.count, rng.choice((v, absent))),
        "index": (quiet, L.index, v), "index-bounds": (quiet, L.index, v, rng.randrange(n), rng.randrange(n)),
        "absent": (quiet, L.index, absent), "remove": (quiet, L.remove, v), "remove-absent": (quiet, L.remove, absent),
        "eq": (operator.eq, L, other), "ne": (operator.ne, L, other), "lt": (operator.lt, L, other), "ge": (operator.ge, L, other),
        "gt": (operator.gt, L, other), "le": (operator.le, L, other),
        "slice": (operator.getitem, L, slice(lo, hi)), "stepped slice": (operator.getitem, L, slice(lo, hi, step)),
        "copy": (L.copy,), "to_list": (L.to_list,), "list": (list, L), "tuple": (tuple, L), "add": (operator.add, L, other),
        "radd": (quiet, operator.add, near, L), "mul": (operator.mul, L, 3), "rmul": (operator.mul, 2, L), "mul0": (operator.mul, L, 0),
        "imul": (operator.imul, L, 3), "imul0": (operator.imul, L, 0), "reverse": (L.reverse,), "clear": (L.clear,),
        "del slice": (operator.delitem, L, slice(lo, hi)),
        "set slice": (operator.setitem, L, slice(lo, hi), rng.choice((near, c(near), near[:10], c(near[:10]), (), iter(near)))),
        "set itself": (operator.setitem, L, slice(lo, hi), L), "extend itself": (L.extend, L), "add itself": (operator.iadd, L, L),
        "construct": (c, near), "construct from itself": (c, L), "construct from an iterator": (c, iter(near)),
        "construct from a generator": (c, (x for x in near)), "initialize again": (L.__init__, near),
        "extend": (L.extend, near), "extend from an iterator": (L.extend, iter(near)), "iadd": (operator.iadd, L, other),
        "insert": (L.insert, rng.randrange(-n, n), v), "pop": (L.pop, rng.randrange(-n, n)), "del": (operator.delitem, L, rng.randrange(-n, n)),
        "get": (operator.getitem, L, rng.randrange(-n, n)), "set": (operator.setitem, L, rng.randrange(-n, n), v),
        "repr": (repr, L), "truth": (bool, L), "iterate": (sum_lengths, L), "reversed": (list, reversed(L)),
        "garbage": (drop, [c(near)]),
    }
    if kind.resize:
        m = rng.choice((0, 1, n // 2, n, n + 1, 2 * n))
        ops["resize"] = (L.resize, m)
    if kind.is_int:
        start = rng.randrange(-n, n)
        ops["from_range"] = (c.from_range, start, start + n)
        ops["from_range step"] = (c.from_range, 3 * n, -3 * n, -6)
    if not kind.is_int and not kind.linked:
        ops["extended set slice"] = (quiet, operator.setitem, L, slice(lo, hi, step or 1), near[lo:hi:step])
    if not kind.is_int and kind.linked:
        ops["extended set slice"] = (quiet, operator.setitem, L, slice(lo, hi, step or 1), data[lo:hi:step])
    ops = {k: f for k, f in ops.items() if hasattr(f[0], "__call__")}
    what = rng.choice(sorted(ops))
    ctx.mark("%s of a %s of %d %s" % (what, kind.name, n, way))
    linear(ctx, kind, what, n, *ops[what], factor=3.0 if what.startswith(("mul", "imul", "add", "radd")) else 1.5,
           storage=not (what == "repr" and not kind.is_int))
    ctx.sample("%s of a %s of %d (%s)" % (what, kind.name, n, way))


def quiet(f, *args):
    try:
        return f(*args)
    except (ValueError, IndexError, TypeError, NotImplementedError):
        return None


def sum_lengths(L):
    k = 0
    for _ in L:
        k += 1
    return k


def drop(box):
    box.clear()


def sorting(ctx, kind, rng):
    n = size(rng)
    style, data = contents(rng, kind, n)
    way, L = built(rng, kind, data)
    how = rng.choice(["plain", "plain", "plain", "reverse", "key", "key-reverse", "again", "sorted"])
    key = (lambda x: -x) if isinstance(data[0], int) and data[0] > -2 ** 62 else (lambda x: x)
    ctx.mark("sort of a %s of %d %s %s %s" % (kind.name, n, style, way, how))
    if how == "again":
        L.sort()
        how = "again"
    f = {"plain": (L.sort,), "again": (L.sort,), "reverse": (sort_with, L, None, True), "key": (sort_with, L, key, False),
         "key-reverse": (sort_with, L, key, True), "sorted": (sorted, L)}[how]
    linear(ctx, kind, "sort %s of %s" % (how, style), n, *f, factor=math.log2(n) / 3)


def sort_with(L, key, reverse):
    L.sort(key=key, reverse=reverse)


def waves(L, data, k):
    for _ in range(k):
        L.pop()
    for v in data[:k]:
        L.append(v)


def queue(ctx, kind, rng):
    """A window that moves along: constant for linked lists at both ends, for array lists at the end."""
    n = size(rng)
    data = contents(rng, kind, n)[1]
    way, L = built(rng, kind, data)
    k = rng.choice((1, 2, 5, 100))
    rounds = n // k
    forms = {"stack": lambda: [(L.append(data[i % n]), L.pop()) for i in range(rounds * k)],
             "waves": lambda: [waves(L, data, rng.choice((2, 3, 5, 17))) for i in range(rounds // 8)],
             "stack by pieces": lambda: [(L.extend(data[:k]), operator.delitem(L, slice(-k, None))) for i in range(rounds)]}
    if kind.linked:
        forms["queue"] = lambda: [(L.append(data[i % n]), L.pop(0)) for i in range(rounds * k)]
        forms["backward queue"] = lambda: [(L.insert(0, data[i % n]), L.pop()) for i in range(rounds * k)]
        forms["queue by pieces"] = lambda: [(L.extend(data[:k]), operator.delitem(L, slice(0, k))) for i in range(rounds)]
    what = rng.choice(sorted(forms))
    trim = rng.choice((0, 0, n // 10, n // 2, n - 50))  # the capacity stays
    if trim:
        if rng.random() < 0.5:
            del L[n - trim:]
        else:
            for _ in range(trim):
                L.pop()
    ctx.mark("%s of %d in a %s of %d %s" % (what, k, kind.name, n, way))
    linear(ctx, kind, what, n, forms[what], factor=1.0 + 2.0 / k)
