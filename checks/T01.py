"""T01: lists shared between threads, recorded concurrent histories and ThreadSanitizer."""
import gc
import itertools
import sys
import threading
import weakref

from lib.lists import KINDS, I32
from lib.monitor import Violation

RULE = ("A history case runs two to four threads, each with its own random program of list operations, on one shared list "
        "(from empty to hundreds of thousands of elements) with the shortest thread switch interval, records every "
        "call's start, end and result and searches for an order of the calls, respecting which ended before which, in which a "
        "built-in list gives the same results and final contents. A tally case does the same with thousands of calls and "
        "checks that the elements put in are exactly those taken out and left. A separate case gives every thread a list of its own "
        "and calls that run Python code in the middle, judged against built-in lists. An iterate case shares one iterator. A "
        "handover case stops a call inside a Python callback while another thread works on the same list. The race "
        "shards run all of this under ThreadSanitizer, the asan shards under AddressSanitizer. distinct_nontrivial "
        "counts distinct (type, order of calls over the threads, operations) of accepted histories.")
ASSUMPTIONS = ["the interpreter has a global interpreter lock (CPython 3.12)",
               "calls that run Python code of the user in the middle (comparison, key functions, iteration) may interleave "
               "with other threads there; for those only crashes, ownership and the range of contents are judged"]

TSAN = dict(TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4:report_thread_leaks=0")


def shards(tier, seed):
    n = {"quick": 1500, "thorough": 40000}[tier]
    r = []
    for k in KINDS:
        r.append(dict(name="history-" + k, kind=k, mode="history", lo=0, hi=n, split=2))
        r.append(dict(name="large-" + k, kind=k, mode="history", large=True, lo=0, hi=n // 18, split=3, weight=3))
        r.append(dict(name="tally-" + k, kind=k, mode="tally", lo=0, hi=n // 15, split=2, weight=2))
        r.append(dict(name="iterate-" + k, kind=k, mode="iterate", lo=0, hi=n // 10, split=1))
        r.append(dict(name="separate-" + k, kind=k, mode="separate", lo=0, hi=n // 3, split=1))
        r.append(dict(name="handover-" + k, kind=k, mode="handover", lo=0, hi=n // 2, split=1))
        r.append(dict(name="asan-handover-" + k, kind=k, mode="handover", variant="asan", lo=0, hi=n // 5, split=1, weight=2))
        r.append(dict(name="asan-history-" + k, kind=k, mode="history", variant="asan", lo=0, hi=n // 10, split=1, weight=2))
        for mode, cases in (("history", n // 8), ("tally", n // 50), ("iterate", n // 40), ("handover", n // 10),
                            ("separate", n // 15)):
            r.append(dict(name="race-%s-%s" % (mode, k), kind=k, mode=mode, variant="tsan", env=TSAN, lo=0, hi=cases,
                          split=1, weight=2, optional=True))
        r.append(dict(name="steady-" + k, kind=k, mode="steady", lo=0, hi=n // 40, split=3, weight=3))
        r.append(dict(name="race-steady-" + k, kind=k, mode="steady", variant="tsan", env=TSAN, lo=0, hi=n // 150, split=1,
                      weight=3, optional=True))
        r.append(dict(name="race-large-" + k, kind=k, mode="history", large=True, variant="tsan", env=TSAN, lo=0, hi=n // 50,
                      split=1, weight=2, optional=True))
    return r


def setup(ctx, shard):
    sys.setswitchinterval(1e-6)
    threading.stack_size(1 << 20 if shard.get("variant") != "asan" else 1 << 23)


def run_case(ctx, shard, case):
    kind = KINDS[shard["kind"]]
    MODES[shard["mode"]](ctx, shard, kind)
    ctx.count(shard["mode"] + " cases")


# -- operations: f(list) for ours and for the built-in one ---------------------------------------

class Call:
    __slots__ = ("name", "args", "mine", "ref", "cost")

    def __init__(self, name, args, mine, ref, cost=1):
        self.name, self.args, self.mine, self.ref, self.cost = name, args, mine, ref, cost

    def __repr__(self):
        return "%s(%s)" % (self.name, ", ".join("%.60r" % (a,) for a in self.args))


def slot_set(L, k, v):
    L[k] = v


def slot_del(L, k):
    del L[k]


def in_place_add(L, v):
    L += v


def in_place_mul(L, k):
    L *= k


def method(name, *args):
    def f(L):
        return getattr(L, name)(*args)
    return Call(name, args, f, f)


def plain(name, fn, *args):
    def f(L):
        return fn(L, *args)
    return Call(name, args, f, f)


def twin(name, mine, ref, *args):
    return Call(name, args, lambda L: mine(L, *args), lambda L: ref(L, *args))


class Source:
    """Distinct elements, and values that may or may not be in the list."""

    def __init__(self, rng, kind):
        self.rng, self.kind = rng, kind
        self.base = rng.choice([0, -40, 2 ** 31 - 2 ** 22, -2 ** 31, 10000]) if kind.bounds != (-2 ** 63, 2 ** 63 - 1) \
            else rng.choice([0, -2 ** 63, 2 ** 63 - 2 ** 22, 2 ** 40])
        self.used = 0
        self.start = []
        self.text = not kind.is_int and rng.random() < 0.4

    def value(self, i):
        v = self.base + i
        return "e%08d" % i if self.text else v

    def fresh(self):
        self.used += 1
        return self.value(self.used - 1)

    def many(self, n):
        return [self.fresh() for _ in range(n)]

    def known(self):
        return self.value(self.rng.randrange(max(1, self.used)))


def slice_of(rng, n):
    a, b = rng.randrange(-n - 1, n + 2), rng.randrange(-n - 1, n + 2)
    return slice(rng.choice([a, a, None]), rng.choice([b, b, None]))


def gen_call(rng, kind, src, n):
    """One call that runs no Python code of ours inside."""
    i = rng.randrange(-n - 1, n + 2) if n < 64 or rng.random() < 0.7 else rng.choice([0, -1, n, n // 2])
    r = rng.choice(OPS)
    if r == "append":
        return method("append", src.fresh())
    if r == "extend":
        k = rng.choice([0, 1, 2, 3, 8, 40])
        v = src.many(k)
        return method("extend", rng.choice([list, tuple, kind.cls])(v))
    if r == "insert":
        return method("insert", i, src.fresh())
    if r == "pop":
        return method("pop") if rng.random() < 0.6 else method("pop", i)
    if r == "remove":
        return method("remove", src.known())
    if r == "index":
        return method("index", src.known())
    if r == "count":
        return method("count", src.known())
    if r == "in":
        return plain("in", lambda L, v: v in L, src.known())
    if r == "len":
        return plain("len", len)
    if r == "get":
        return plain("get", lambda L, k: L[k], i)
    if r == "slice":
        return plain("slice", lambda L, s: list(L[s]), slice_of(rng, n))
    if r == "set":
        return plain("set", slot_set, i, src.fresh())
    if r == "del":
        return plain("del", slot_del, i)
    if r == "setslice":
        return plain("setslice", slot_set, slice_of(rng, n), src.many(rng.choice([0, 1, 3, 9])))
    if r == "delslice":
        return plain("delslice", slot_del, slice_of(rng, n))
    if r == "reverse":
        return method("reverse")
    if r == "sort":
        if rng.random() < 0.5:
            return method("sort")
        rev = rng.random() < 0.7
        return plain("sort", lambda L, rv: L.sort(reverse=rv), rev)
    if r == "mul":
        k = rng.choice([0, 1, 2, 3])
        return plain("mul", lambda L, m: list(L * m), k)
    if r == "imul":
        return plain("imul", in_place_mul, rng.choice([1, 2, 2, 3]) if n < 5000 or rng.random() < 0.3 else 1)
    if r == "add":
        return plain("add", lambda L, v: list(L + v), src.many(2))
    if r == "iadd":
        return plain("iadd", in_place_add, src.many(rng.choice([1, 2, 17])))
    if r == "copy":
        return twin("copy", lambda L: list(L.copy()), lambda L: list(L))
    if r == "to_list":
        return twin("to_list", lambda L: L.to_list(), lambda L: list(L))
    if r == "list":
        return plain("list", list)
    if r == "eq":
        same = src.start[:] if rng.random() < 0.7 else src.many(n)
        return plain("eq", lambda L, v: L == v, same)
    if r == "repr":
        return plain("repr", repr) if n <= 200 else plain("len", len)
    if r == "new":
        return twin("new", lambda L: type(L)(L).to_list(), lambda L: list(L))
    if r == "self":
        return twin("extend self", lambda L: L.extend(L), lambda L: L.extend(list(L)))
    return method("clear")


OPS = (["append"] * 5 + ["extend"] * 3 + ["insert"] * 4 + ["pop"] * 5 + ["remove"] * 2 + ["index", "count", "in", "len"] +
       ["get"] * 2 + ["slice"] * 2 + ["set"] * 2 + ["del"] * 2 + ["setslice"] * 2 + ["delslice"] + ["reverse"] * 4 +
       ["sort"] * 4 + ["mul"] + ["imul"] * 2 + ["add"] + ["iadd"] * 2 + ["copy"] * 2 + ["to_list"] * 2 + ["list"] * 2 +
       ["eq", "repr", "new", "new", "self", "clear"])


# -- threads -------------------------------------------------------------------------------------

def together(bodies):
    """Runs the bodies in one thread each, all released at once; their exceptions come back."""
    barrier = threading.Barrier(len(bodies))
    failures = []

    def run(body):
        try:
            barrier.wait()
            body()
        except BaseException as e:
            failures.append(e)

    threads = [threading.Thread(target=run, args=(b,)) for b in bodies]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    for e in failures:
        raise e


def outcome(f, L):
    try:
        return "ok", f(L)
    except (IndexError, ValueError) as e:
        return "raised", type(e).__name__


def history(ctx, shard, kind):
    rng = ctx.rng
    src = Source(rng, kind)
    large = shard.get("large")
    n = rng.choice([20000, 20000, 50000, 120000] if large else [0, 1, 2, 5, 9, 16, 30, 64, 200, 900])
    if large and (kind.linked or shard.get("variant") == "tsan"):
        n //= 8  # slicing a linked list takes quadratic time
    initial = src.many(n)
    if rng.random() < 0.7:
        rng.shuffle(initial)
    src.start = initial
    L = kind.cls(initial)
    threads = rng.choice([2, 2, 3, 4])
    programs = [[gen_call(rng, kind, src, n) for _ in range(rng.choice([1, 2, 3, 4]))] for _ in range(threads)]
    ticket = itertools.count()
    log = [[] for _ in programs]

    def body(t):
        mine = log[t]
        program = programs[t]

        def run():
            for c in program:
                a = next(ticket)
                r = outcome(c.mine, L)
                mine.append((c, a, next(ticket), r))
        return run

    ctx.mark("%s n=%d %s" % (kind.name, n, programs))
    together([body(t) for t in range(threads)])
    final = L.to_list()
    calls = sum(len(p) for p in log)
    ctx.count("concurrent calls recorded", calls)
    overlaps = sum(1 for t in range(threads) for c in log[t] for u in range(t) for d in log[u] if c[1] < d[2] and d[1] < c[2])
    ctx.count("pairs of calls that overlapped", overlaps)
    order = witness(ctx, initial, log, final)
    if order is None:
        raise Violation("%s-not-serializable" % kind, "no order of the calls explains the results, list of %d elements "
                        "starting %.200r\n%s\nfinal: %d elements %.300r" % (
                            n, initial, "\n".join("thread %d: %s" % (t, "; ".join("%r -> %.80r" % (c, r)
                                                                                 for c, _, _, r in log[t]))
                                                  for t in range(threads)), len(final), final))
    ctx.count("accepted histories where threads alternated", any(a != b for a, b in zip(order, sorted(order))))
    ctx.distinct(kind.name, n, tuple(order), tuple(c.name for t in log for c, _, _, _ in t))
    check_self(kind, L, final)
    ctx.sample("%s of %d: order %s of %s" % (kind, n, order, programs))


def witness(ctx, initial, log, final):
    """A serial order of the recorded calls with the same results, in which no call comes before one that had returned
    when it started; the order in which the calls returned is tried first."""
    seen = set()
    total = sum(len(p) for p in log)
    visited = work = 0
    stack = [(tuple(0 for _ in log), list(initial), ())]
    while stack:
        done, state, order = stack.pop()
        visited += 1
        work += len(state) + 100
        if work > 3 * 10 ** 7:
            ctx.count("histories whose search was cut short")
            return ()
        if sum(done) == total:
            if state == final:
                ctx.maximum("states searched for one history", visited)
                return order
            continue
        heads = [(t, log[t][done[t]]) for t in range(len(log)) if done[t] < len(log[t])]
        first_end = min(c[2] for _, c in heads)
        heads.sort(key=lambda h: -h[1][2])  # the last one pushed is tried next
        for t, (c, start, _, result) in heads:
            if start > first_end:
                continue
            after = state[:]
            if outcome(c.ref, after) != result:
                continue
            nxt = done[:t] + (done[t] + 1,) + done[t + 1:]
            if len(after) < 2000 or visited > 60:
                sig = (nxt, len(after), hash(tuple(after)))
                if sig in seen:
                    continue
                seen.add(sig)
            stack.append((nxt, after, order + (t,)))
    return None


def check_self(kind, L, final):
    if len(L) != len(final) or list(L) != final or list(reversed(L)) != final[::-1]:
        raise Violation("%s-inconsistent" % kind, "len %d, to_list %d elements, iteration %.200r" % (len(L), len(final),
                                                                                                  list(L)))


def tally(ctx, shard, kind):
    """Long programs: what went in is what came out plus what is left."""
    rng = ctx.rng
    src = Source(rng, kind)
    src.text = src.text and not kind.is_int
    n = rng.choice([0, 3, 50, 1000, 5000])
    initial = src.many(n)
    rng.shuffle(initial)
    L = kind.cls(initial)
    other = kind.cls(initial)
    threads = rng.choice([2, 3, 4, 6])
    steps = 150 if shard.get("variant") == "tsan" else 400
    plans, puts, takes = [], [], []
    heavy = rng.choice([0.0, 0.02, 0.2])
    for t in range(threads):
        plan = []
        for _ in range(steps):
            r = rng.random()
            if r < heavy:
                plan.append((rng.choice(["reverse", "sort", "sortr", "copy", "mul", "other"]), None))
            elif r < 0.3:
                plan.append(("append", src.fresh()))
            elif r < 0.4:
                plan.append(("insert", (rng.randrange(-n - 2, n + 2), src.fresh())))
            elif r < 0.5:
                plan.append(("extend", src.many(rng.choice([1, 2, 9]))))
            elif r < 0.8:
                plan.append(("pop", rng.choice([-1, -1, 0, 1, n // 2])))
            elif r < 0.9:
                plan.append(("remove", src.known()))
            else:
                plan.append(("swap", None))
        plans.append(plan)
        puts.append([])
        takes.append([])

    def body(t):
        plan, put, take = plans[t], puts[t], takes[t]

        def run():
            for what, arg in plan:
                try:
                    if what == "append":
                        L.append(arg)
                        put.append(arg)
                    elif what == "insert":
                        L.insert(*arg)
                        put.append(arg[1])
                    elif what == "extend":
                        L.extend(arg)
                        put.extend(arg)
                    elif what == "pop":
                        take.append(L.pop(arg))
                    elif what == "remove":
                        L.remove(arg)
                        take.append(arg)
                    elif what == "reverse":
                        L.reverse()
                    elif what == "sort":
                        L.sort()
                    elif what == "sortr":
                        L.sort(reverse=True)
                    elif what == "other":
                        other.sort(reverse=len(put) % 2 == 0)
                        other.reverse()
                    else:
                        got = L.copy().to_list() if what == "copy" else list(L * 1) if what == "mul" else L.to_list()
                        if len(got) != len(set(got)):
                            raise Violation("%s-torn-%s" % (kind, what), "an element is there twice: %.300r" % (got,))
                except (IndexError, ValueError):
                    pass
        return run

    ctx.mark("%s n=%d %d threads" % (kind.name, n, threads))
    together([body(t) for t in range(threads)])
    final = L.to_list()
    inside = initial + [v for p in puts for v in p]
    outside = final + [v for p in takes for v in p]
    ctx.count("calls in tallies", threads * steps)
    ctx.count("elements accounted for", len(inside))
    if len(inside) != len(outside) or sorted(inside) != sorted(outside):
        a, b = set(inside), set(outside)
        raise Violation("%s-tally" % kind, "%d elements went in, %d came out or are left; lost %.200r, invented %.200r" % (
            len(inside), len(outside), sorted(a - b)[:20], sorted(b - a)[:20]))
    if sorted(other.to_list()) != sorted(initial):
        raise Violation("%s-tally-other" % kind, "a list that was only sorted and reversed changed its elements")
    check_self(kind, L, final)
    ctx.distinct(kind.name, "tally", n, threads, len(final), tuple(len(t) for t in takes))


def iterate(ctx, shard, kind):
    """Several threads draw from one iterator: every element is drawn exactly once, in order per thread."""
    rng = ctx.rng
    src = Source(rng, kind)
    n = rng.choice([0, 1, 10, 500, 4000])
    data = src.many(n)
    L = kind.cls(data)
    backwards = rng.random() < 0.4
    grow = not backwards and rng.random() < 0.4
    it = reversed(L) if backwards else iter(L)
    threads = rng.choice([2, 3, 4])
    drawn = [[] for _ in range(threads)]
    chunk = rng.choice([1, 1, 3, 50])
    extra = src.many(rng.choice([1, 20, 200])) if grow else []

    def draw(t):
        mine = drawn[t]

        def run():
            while True:
                if chunk == 1:
                    v = next(it, None)
                    if v is None:
                        return
                    mine.append(v)
                else:
                    part = list(itertools.islice(it, chunk))
                    mine.extend(part)
                    if len(part) < chunk:
                        return
        return run

    def feed():
        for v in extra:
            L.append(v)

    ctx.mark("%s n=%d" % (kind.name, n))
    together([draw(t) for t in range(threads)] + ([feed] if grow else []))
    want = data + extra
    if backwards:
        want = want[::-1]
    place = {v: i for i, v in enumerate(want)}
    got = [v for d in drawn for v in d]
    ctx.count("elements drawn from shared iterators", len(got))
    ctx.count("shared iterators drawn from by several threads", sum(1 for d in drawn if d) > 1)
    for d in drawn:
        pos = [place.get(v, -1) for v in d]
        if -1 in pos or any(a >= b for a, b in zip(pos, pos[1:])):
            raise Violation("%s-shared-iterator-order" % kind, "one thread drew %.300r from %.300r" % (d, want))
    if len(got) != len(set(got)):
        raise Violation("%s-shared-iterator-twice" % kind, "%d elements drawn, %d distinct" % (len(got), len(set(got))))
    # what was appended after the iterator had ended need not come, everything before it has to
    places = sorted(place[v] for v in got)
    if places != list(range(len(places))) or len(places) < n:
        raise Violation("%s-shared-iterator-lost" % kind, "%d of %d elements drawn" % (len(got), n))
    ctx.distinct(kind.name, "iterate", n, backwards, grow, tuple(len(d) for d in drawn))


def separate(ctx, shard, kind):
    """Every thread has a list of its own, the calls run Python code in the middle: no list shows in another."""
    rng = ctx.rng
    threads = rng.choice([2, 3, 4])
    plans = []
    for t in range(threads):
        src = Source(rng, kind)
        n = rng.choice([0, 3, 17, 60, 300])
        initial = src.many(n)
        rng.shuffle(initial)
        plan = []
        for _ in range(rng.choice([4, 10])):
            if rng.random() < 0.5:
                plan.append(gen_call(rng, kind, src, n))
            else:
                plan.append(python_call(rng, kind, src, n))
        plans.append((initial, plan))
    reports = []

    def body(t):
        initial, plan = plans[t]

        def run():
            L, model = kind.cls(initial), list(initial)
            for i, c in enumerate(plan):
                if len(model) > 3000:
                    break
                ours, theirs = outcome(c.mine, L), outcome(c.ref, model)
                if ours != theirs or L.to_list() != model:
                    reports.append("thread %d of %d, call %r: %.200r instead of %.200r, list %.200r instead of %.200r, its "
                                   "calls %.500r" % (t, threads, c, ours, theirs, L.to_list(), model, plan[:i + 1]))
                    break
        return run

    ctx.mark("%s %s" % (kind.name, plans))
    together([body(t) for t in range(threads)])
    ctx.count("calls on lists of their own", sum(len(p) for _, p in plans))
    if reports:
        raise Violation("%s-separate" % kind, "\n".join(reports))
    ctx.distinct(kind.name, "separate", tuple(c.name for _, p in plans for c in p))


def slow(x):
    return x


def slow_each(values):
    for v in values:
        yield slow(v)


class SlowIndex:
    def __init__(self, n):
        self.n = n

    def __index__(self):
        return slow(self.n)


def python_call(rng, kind, src, n):
    """One call with callbacks that let another thread run."""
    r = rng.choice(["sortkey", "sortkey", "sortneg", "extend", "setslice", "init", "get", "iadd", "insert", "compare"])
    i = rng.randrange(-n - 1, n + 2)
    if r == "sortkey":
        m, rev = rng.choice([3, 7, 1000]), rng.random() < 0.4
        key = (lambda x: slow(int(x[1:])) % m) if src.text else (lambda x: slow(x) % m)
        return plain("sort key", lambda L: L.sort(key=key, reverse=rev))
    if r == "sortneg":
        key = (lambda x: -slow(int(x[1:]))) if src.text else (lambda x: -slow(x))
        return plain("sort neg", lambda L: L.sort(key=key))
    v = src.many(rng.choice([0, 1, 5, 30]))
    if r == "extend":
        return plain("extend gen", lambda L: L.extend(slow_each(v)))
    if r == "iadd":
        return plain("iadd gen", lambda L: in_place_add(L, list(slow_each(v))))
    if r == "setslice":
        s = slice_of(rng, n)
        return plain("setslice gen", lambda L: slot_set(L, s, slow_each(v)))
    if r == "init":
        return twin("init gen", lambda L: type(L)(slow_each(v)).to_list(), lambda L: list(v))
    if r == "get":
        return plain("get index", lambda L: L[SlowIndex(i)])
    if r == "insert":
        w = src.fresh()
        return plain("insert index", lambda L: L.insert(SlowIndex(i), w))
    return plain("compare", lambda L: (L == Twin(v), L < Twin(v), L > Twin(v), L != Twin(v)))


class Twin(list):
    def __getitem__(self, i):
        return slow(list.__getitem__(self, i))

    def __len__(self):
        return slow(list.__len__(self))


# -- calls stopped inside a callback while another thread works on the list ----------------------

class Helper:
    """A thread that runs one action at a time for the thread that asks, which waits for it."""

    def __init__(self):
        self.go, self.done = threading.Semaphore(0), threading.Semaphore(0)
        self.action = None
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()

    def loop(self):
        while True:
            self.go.acquire()
            action, self.action = self.action, None
            if action is None:
                return
            try:
                action()
            except Exception as e:
                if not isinstance(e, ALLOWED):
                    self.failed = e
            del action
            self.done.release()

    failed = None

    def run(self, action):
        self.action = action
        self.go.release()
        self.done.acquire()

    def stop(self):
        self.action = None
        self.go.release()
        self.thread.join()


ALLOWED = (IndexError, ValueError, TypeError, OverflowError, RuntimeError, NotImplementedError, BufferError)


class Tracked:
    live = weakref.WeakSet()
    hook = None

    def __init__(self, n):
        self.n = n
        Tracked.live.add(self)

    def __hash__(self):
        return id(self) >> 4

    def __eq__(self, other):
        if Tracked.hook:
            Tracked.hook()
        return isinstance(other, Tracked) and self.n == other.n

    def __lt__(self, other):
        if Tracked.hook:
            Tracked.hook()
        return self.n < other.n

    def __repr__(self):
        if Tracked.hook:
            Tracked.hook()
        return "T%d" % self.n


class Idx:
    def __init__(self, n, hook):
        self.n, self.hook = n, hook

    def __index__(self):
        self.hook()
        return self.n


def feed(values, hook):
    for v in values:
        hook()
        yield v


def handover(ctx, shard, kind):
    rng = ctx.rng
    counter = itertools.count()
    if kind.is_int:
        make = lambda: next(counter)  # noqa: E731
    else:
        make = lambda: Tracked(rng.randrange(12))  # noqa: E731
    helper = Helper()
    L = kind.cls([make() for _ in range(rng.choice([0, 1, 2, 5, 9, 20, 70]))])
    budget = [40]
    inside = [False]
    fired = []

    def other_thread():
        try:
            c = rng.choice(["append", "pop", "clear", "extend", "reverse", "sort", "del", "slice", "set", "imul", "copy", "iter",
                            "insert", "remove0"])
            fired.append(c)
            n = len(L)
            if c == "append":
                L.append(make())
            elif c == "pop":
                L.pop(rng.choice([0, -1, n // 2]))
            elif c == "clear":
                L.clear()
            elif c == "extend":
                L.extend([make() for _ in range(rng.choice([1, 40]))])
            elif c == "reverse":
                L.reverse()
            elif c == "sort":
                L.sort()
            elif c == "del":
                del L[:n // 2]
            elif c == "slice":
                L[n // 2:] = [make()]
            elif c == "set":
                L[n // 2] = make()
            elif c == "imul":
                if n < 500:
                    L.__imul__(2)
            elif c == "copy":
                L.copy()
            elif c == "iter":
                list(L)
            elif c == "insert":
                L.insert(n // 2, make())
            elif c == "remove0":
                del L[0]
        finally:
            pass

    def hook():
        # only one level, and only while the main call runs
        if inside[0] or budget[0] <= 0 or threading.current_thread() is helper.thread or rng.random() < 0.3:
            return
        budget[0] -= 1
        inside[0] = True
        try:
            helper.run(other_thread)
            ctx.count("calls made by another thread inside a call")
        finally:
            inside[0] = False

    Tracked.hook = hook
    log = []
    try:
        for _ in range(12):
            n = len(L)
            i = rng.randrange(-n - 1, n + 2)
            v = make()
            c = rng.choice(CALLBACK_CALLS if not kind.is_int else INT_CALLBACK_CALLS)
            log.append(c)
            ctx.mark(" ".join(log) + " / " + " ".join(fired[-6:]))
            before = len(fired)
            try:
                callback_call(kind, L, c, i, v, make, hook, rng)
            except ALLOWED:
                ctx.count("raised")
            ctx.count("calls with callbacks")
            Tracked.hook = None
            content = L.to_list()
            check_self_identity(kind, L, content)
            if kind.is_int:
                if any(type(x) is not int or not -5 <= x <= 10 ** 6 for x in content):
                    raise Violation("%s-handover-contents" % kind, "%s %s: %.300r" % (log, fired, content))
            elif any(type(x) is not Tracked for x in content):
                raise Violation("%s-handover-contents" % kind, "%s %s: %.300r" % (log, fired, content))
            if helper.failed is not None:
                raise Violation("%s-handover-exception" % kind, repr(helper.failed))
            if len(fired) > before:
                ctx.distinct(kind.name, "handover", c, tuple(fired[before:before + 3]))
            del content
            Tracked.hook = hook
    finally:
        Tracked.hook = None
        helper.stop()
    if not kind.is_int:
        del L, v
        hook = other_thread = None
        gc.collect()
        left = len(Tracked.live)
        if left:
            leaked = [x for x in Tracked.live]
            Tracked.live = weakref.WeakSet()
            raise Violation("%s-handover-leak" % kind, "%d elements still alive after everything was dropped, %s %s" % (
                len(leaked), log, fired))


def check_self_identity(kind, L, content):
    a, b = list(L), list(reversed(L))[::-1]
    if len(L) != len(content) or not (len(a) == len(b) == len(content)) or any(
            x is not y and not (kind.is_int and x == y) or z is not y and not (kind.is_int and z == y)
            for x, y, z in zip(a, content, b)):
        raise Violation("%s-inconsistent" % kind, "length %d, %d, %d, %d" % (len(L), len(content), len(a), len(b)))


CALLBACK_CALLS = ["index", "count", "in", "remove", "sort", "sort", "sortkey", "eq", "eqlist", "lt", "repr", "extend", "init",
                  "setslice", "getidx", "setidx", "delidx", "insertidx", "popidx", "mulidx", "iadd", "sliceidx", "setsliceidx"]
INT_CALLBACK_CALLS = ["sortkey", "eqlist", "extend", "extend", "init", "setslice", "getidx", "setidx", "delidx", "insertidx",
                      "popidx", "mulidx", "iadd", "sliceidx", "setsliceidx"]


def callback_call(kind, L, c, i, v, make, hook, rng):
    if c == "index":
        L.index(v)
    elif c == "count":
        L.count(v)
    elif c == "in":
        v in L
    elif c == "remove":
        L.remove(v)
    elif c == "sort":
        L.sort(reverse=rng.random() < 0.3)
    elif c == "sortkey":
        def key(x):
            hook()
            return x if kind.is_int else x.n
        L.sort(key=key)
    elif c == "eq":
        L == L.copy()
    elif c == "eqlist":
        L == feed_list(kind, L)
    elif c == "lt":
        L < L.copy()
    elif c == "repr":
        repr(L)
    elif c == "extend":
        L.extend(feed([make() for _ in range(rng.choice([1, 3, 9]))], hook))
    elif c == "init":
        L.__init__(feed([make() for _ in range(rng.choice([1, 3, 9]))], hook))
    elif c == "setslice":
        L[i:i + 3] = feed([make() for _ in range(rng.choice([0, 1, 3, 9]))], hook)
    elif c == "getidx":
        L[Idx(i, hook)]
    elif c == "setidx":
        L[Idx(i, hook)] = v
    elif c == "delidx":
        del L[Idx(i, hook)]
    elif c == "insertidx":
        L.insert(Idx(i, hook), v)
    elif c == "popidx":
        L.pop(Idx(i, hook))
    elif c == "mulidx":
        L * Idx(2, hook)
    elif c == "iadd":
        L.__iadd__(feed([make() for _ in range(rng.choice([1, 3, 9]))], hook))
    elif c == "sliceidx":
        L[Idx(i, hook):Idx(i + 3, hook)]
    elif c == "setsliceidx":
        L[Idx(i, hook):Idx(i + 3, hook)] = [v]


def feed_list(kind, L):
    return list(L) if kind.is_int else [Tracked(x.n) for x in L.to_list()]


def steady(ctx, shard, kind):
    """Some threads take a large list back and forth between two known contents, others look at it: whatever they get
    shows one of the two."""
    rng = ctx.rng
    slow = shard.get("variant") == "tsan"
    n = rng.choice([70000, 100000, 140000] if kind.linked or slow else [70000, 140000, 300000, 600000])
    base = rng.choice([0, -5, 2 ** 31 - n, -2 ** 31])
    one = list(range(base, base + n))
    grow = rng.random() < 0.4
    extra = list(range(base - 1, base - 1 - rng.choice([1, 10, n // 2, n]), -1)) if base > -2 ** 31 else [base]
    back = rng.random() < 0.7
    two = (one + extra if back else extra + one) if grow else one[::-1]
    L = kind.cls(one)
    rounds = 4 if slow else 25
    looks = 3 if slow else 12

    def flip(t, steps):
        how = [rng.choice(["reverse", "reverse", "sort", "repeat"]) for _ in range(steps)]

        def run():
            up = True
            for h in how:
                if grow:
                    if back:
                        L.extend(extra) if h != "sort" else L.__iadd__(extra)
                        if len(extra) == 1:
                            L.pop()
                        else:
                            del L[n:]
                    elif len(extra) == 1:
                        L.insert(0, extra[0])
                        L.pop(0)
                    else:
                        L[0:0] = extra
                        del L[0:len(extra)]
                elif h == "reverse":
                    L.reverse()
                elif h == "sort":
                    up = not up
                    L.sort(reverse=not up)
                else:
                    L.__imul__(1)
        return run

    def fresh(build):
        T = kind.cls()
        build(T)
        return T.to_list()

    def assign(T):
        T[:] = L

    def add_in(T):
        T += L

    looking = {"copy": lambda: L.copy().to_list(), "to_list": lambda: L.to_list(), "new": lambda: kind.cls(L).to_list(),
               "mul": lambda: (L * 1).to_list(), "add": lambda: L + [], "add own": lambda: (L + kind.cls()).to_list(),
               "add to own": lambda: (kind.cls() + L).to_list(),
               "extend": lambda: fresh(lambda T: T.extend(L)), "iadd": lambda: fresh(add_in),
               "setslice": lambda: fresh(assign), "list": lambda: list(L) if not grow else L.to_list(),
               "reinit": lambda: fresh(lambda T: T.__init__(L)), "mul two": lambda: (L * 2).to_list(),
               "index": lambda: L.index(one[k]), "count": lambda: L.count(one[k]), "in": lambda: one[k] in L,
               "eq": lambda: L == one, "len": lambda: len(L), "repr": lambda: repr(L)}
    k = rng.randrange(n)
    if kind.linked:
        looking["slice"] = lambda: L.to_list()
    else:
        looking["slice"] = lambda: L[:]
    del looking["list"]  # a loop, not one operation
    names = sorted(looking)
    places = (one.index(one[k]), two.index(one[k]))
    texts = None
    if rng.random() < 0.1 and not slow:  # repr reallocates its text per element, which TSan makes quadratic
        texts = (repr(one), repr(two))
    else:
        names.remove("repr")
    plans = [[rng.choice(names) for _ in range(looks)] for _ in range(rng.choice([1, 2, 3]))]
    bad = []

    def watch(plan):
        def run():
            for what in plan:
                got = looking[what]()
                if what == "index":
                    ok = got in places
                elif what == "count":
                    ok = got == 1
                elif what == "in":
                    ok = got is True
                elif what == "eq":
                    ok = isinstance(got, bool)
                elif what == "len":
                    ok = got in (len(one), len(two))
                elif what == "repr":
                    ok = got in texts
                elif what == "mul two":
                    ok = got == one + one or got == two + two
                else:
                    ok = got == one or got == two
                if not ok:
                    bad.append((what, got))
                    return
        return run

    ctx.mark("%s n=%d %s %s" % (kind.name, n, "grow by %d" % len(extra) if grow else "flip", plans))
    together([flip(0, rounds)] + ([flip(1, rounds)] if not grow and rng.random() < 0.3 else []) + [watch(p) for p in plans])
    ctx.count("looks at a large list that others change", sum(len(p) for p in plans))
    ctx.distinct(kind.name, "steady", n, grow, len(extra), tuple(tuple(p) for p in plans))
    if bad:
        what, got = bad[0]
        if isinstance(got, list):
            cut = next((i for i in range(1, len(got)) if abs(got[i] - got[i - 1]) != 1), None)
            got = "%d elements, breaks at %s: %.200r" % (len(got), cut, got[max(0, (cut or 0) - 3):][:8])
        raise Violation("%s-torn-%s" % (kind, what), "list of %d that was %s meanwhile: %.300s" % (
            n, "changing its length" if grow else "turned round and sorted", got))
    final = L.to_list()
    if final != one and final != two:
        raise Violation("%s-torn-contents" % kind, "list of %d ends with neither of its two contents" % n)


MODES = dict(steady=steady, history=history, tally=tally, iterate=iterate, handover=handover, separate=separate)
