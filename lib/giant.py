"""Array lists of several GiB: more bytes than 32 bits count, and more elements than 31 bits count."""
import ctypes

from lib.lists import KINDS
from lib.monitor import Violation

LIBC = ctypes.CDLL(None)
LIBC.memcmp.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t]
GIB = 1 << 30


def available():
    for line in open("/proc/meminfo"):
        if line.startswith("MemAvailable:"):
            return int(line.split()[1]) * 1024
    return 0


def shards(kinds, tier):
    return [dict(name="giant", kinds=list(kinds), lo=0, hi=len(kinds) * (1 if tier == "quick" else 4), split=1, mode="giant",
                 rlimit_mb=0, weight=60)]


def case(ctx, shard, number):
    kind = KINDS[shard["kinds"][number % len(shard["kinds"])]]
    if available() < 20 * GIB:
        ctx.count("giant cases skipped for want of memory")
        return
    rng = ctx.rng
    if kind.is_int:
        width = 4 if kind.bounds[1] < 2 ** 31 else 8
        block = [rng.randint(*kind.bounds) for _ in range(rng.choice([1009, 4099, 65537]))]
        numbers(ctx, kind, rng, width, block)
    else:
        width = 8
        block = [rng.choice([None, True, False, 0, 1, 255, ""]) for _ in range(rng.choice([1009, 4099]))]
        objects(ctx, kind, rng, block)
    ctx.count("giant lists walked through")


def buffer(L):
    """Address and bytes of the elements; no view is left."""
    view = memoryview(L)
    if view.nbytes != len(L) * view.itemsize or view.shape != (len(L),):
        raise Violation("giant-view", "list of %d elements, view of %d bytes, shape %r" % (len(L), view.nbytes, view.shape))
    c = (ctypes.c_char * 1).from_buffer(view)
    r = ctypes.addressof(c), view.nbytes
    del c
    view.release()
    return r


def periodic(ctx, what, L, block, start=0, stop=None):
    """Every element from start to stop is the block's, over and over."""
    at, size = buffer(L)
    n = len(L)
    width = size // n
    stop = n if stop is None else stop
    k = len(block)
    first = [L[start + i] for i in range(min(k, stop - start))]
    if first != block[:stop - start]:
        raise Violation("giant-" + what, "wrong first elements in a list of %d" % n)
    if stop - start > k and LIBC.memcmp(at + start * width, at + (start + k) * width, (stop - start - k) * width):
        raise Violation("giant-" + what, "a list of %d elements doesn't repeat its first %d from %d to %d" % (n, k, start, stop))
    ctx.count("giant elements compared", stop - start)
    ctx.distinct("giant", what, n, start)


def spots(rng, n):
    r = [0, 1, n - 1, n - 2, n // 2]
    for p in (15, 16, 24, 28, 29, 30, 31, 32):
        for d in (-1, 0, 1):
            r += [2 ** p + d, n - 2 ** p + d]
    r += [rng.randrange(n) for _ in range(40)]
    return [i for i in r if 0 <= i < n]


def same(ctx, what, got, want):
    if got != want:
        raise Violation("giant-" + what, "%.300r instead of %.300r" % (got, want))
    ctx.count("giant results compared")


def walk(ctx, rng, what, L, at):
    n = len(L)
    ctx.distinct("giant-walk", what, n)
    same(ctx, what + "-len", len(L), n)
    for i in spots(rng, n):
        same(ctx, what + "-item", [i, L[i]], [i, at(i)])
        same(ctx, what + "-item-negative", [i, L[i - n]], [i, at(i)])
    for i in rng.sample(spots(rng, n), 12):
        j = min(n, i + rng.randrange(70))
        same(ctx, what + "-slice", L[i:j], [at(x) for x in range(i, j)])
        same(ctx, what + "-slice-negative", L[i - n:j - n or None], [at(x) for x in range(i, j)])
    step = n // rng.randrange(3, 90)
    same(ctx, what + "-step", L[::step], [at(x) for x in range(0, n, step)])
    same(ctx, what + "-step-back", L[::-step], [at(x) for x in range(n - 1, -1, -step)])
    it, back = iter(L), reversed(L)
    for x in range(70):
        same(ctx, what + "-iter", next(it), at(x))
        same(ctx, what + "-reversed", next(back), at(n - 1 - x))
    for bad in (n, -n - 1, n + 2 ** 32, -n - 2 ** 32):
        try:
            L[bad]
        except IndexError:
            continue
        raise Violation("giant-" + what, "no IndexError for %d in a list of %d" % (bad, n))


def numbers(ctx, kind, rng, width, block):
    k = len(block)
    copies = 4 * GIB // width // k + 2
    n = copies * k
    what = "%s of %d elements (%d copies of %d)" % (kind, n, copies, k)
    ctx.mark(what)
    lo, hi = kind.bounds
    block = [v if v != hi else 0 for v in block]
    small = kind.cls(block)
    if rng.random() < 0.5:
        L = small * copies
    else:
        L = small.copy()
        L *= copies
    same(ctx, "len", len(L), n)
    periodic(ctx, "repeat", L, block)
    walk(ctx, rng, "repeat", L, lambda i: block[i % k])
    ctx.mark(what + " search")
    spot = n - 1 - rng.randrange(3)
    L[spot] = hi
    same(ctx, "index", L.index(hi), spot)
    same(ctx, "count", L.count(hi), 1)
    same(ctx, "contains", hi in L, True)
    ctx.mark(what + " copy")
    how = rng.randrange(3)
    M = L.copy() if how == 0 else kind.cls(L) if how == 1 else L + kind.cls()
    same(ctx, "copy-item", M[spot], hi)
    same(ctx, "eq", [L == M, L != M, L < M, L <= M, L > M, L >= M], [True, False, False, True, False, True])
    M[spot] = lo
    same(ctx, "order", [L == M, L != M, L < M, L <= M, L > M, L >= M], [False, True, False, False, True, True])
    M[spot] = block[spot % k]
    periodic(ctx, "copy", M, block)
    same(ctx, "copy-independent", L[spot], hi)
    del L
    ctx.mark(what + " reverse")
    M.reverse()
    back = block[::-1]
    periodic(ctx, "reverse", M, back)
    # room for more, so that the changes below needn't move everything
    ctx.mark(what + " insert")
    M.pop(), M.pop(), M.pop()
    M.insert(0, hi)
    same(ctx, "insert-0", [M[0], M[1], M[-1], len(M)], [hi, back[0], back[(n - 4) % k], n - 2])
    periodic(ctx, "insert", M, back, 1)
    p = n - 1000 - rng.randrange(1000)
    M.insert(p - len(M), lo)
    same(ctx, "insert-far", M[p - 2:p + 3], [back[(p - 3) % k], back[(p - 2) % k], lo, back[(p - 1) % k], back[p % k]])
    same(ctx, "pop", M.pop(p), lo)
    same(ctx, "pop-0", M.pop(0), hi)
    periodic(ctx, "pop", M, back)
    size = len(M)
    ctx.mark(what + " slices")
    a = size // 2 // k * k
    del M[a:a + k]
    size -= k
    periodic(ctx, "delslice", M, back)
    M[a:a] = back
    size += k
    periodic(ctx, "setslice", M, back)
    M[a:a + 2 * k] = back
    size -= k
    periodic(ctx, "setslice-less", M, back)
    same(ctx, "len", len(M), size)
    M.append(lo)
    same(ctx, "append", [M[-1], M[size], len(M)], [lo, lo, size + 1])
    M.remove(back[0])
    same(ctx, "remove", [M[0], M[-1], len(M)], [back[1 % k], lo, size])
    M.resize(size + 3)
    same(ctx, "resize", M[-4:], [lo, 0, 0, 0])
    M.resize(5)
    same(ctx, "resize-down", M.to_list(), [back[(1 + i) % k] for i in range(5)])
    del M
    if kind.bounds[1] < 2 ** 31 and available() > 12 * GIB:
        copies = 2 ** 31 // k + 4
        n = copies * k
        ctx.mark("%s of %d elements" % (kind, n))
        L = kind.cls(block) * copies
        periodic(ctx, "many", L, block)
        walk(ctx, rng, "many", L, lambda i: block[i % k])
        L[n - 1] = hi
        same(ctx, "many-index", [L.index(hi), L.index(hi, -2), L.count(hi), hi in L], [n - 1, n - 1, 1, True])
        L.reverse()
        same(ctx, "many-reverse", L[0], hi)
        same(ctx, "many-pop", [L.pop(), len(L)], [block[0], n - 1])
        periodic(ctx, "many-reverse", L, (block[::-1] * 2)[1:1 + k], 1)
        it = iter(L)
        same(ctx, "many-hint", [next(it), len(L)], [hi, n - 1])
        del L[5:]
        same(ctx, "many-del", L.to_list(), [hi] + [(block[::-1] * 2)[1 + i] for i in range(4)])


def objects(ctx, kind, rng, block):
    k = len(block)
    copies = 2 * GIB // 8 // k + 2
    n = copies * k
    ctx.mark("%s of %d elements" % (kind, n))
    L = kind.cls(block) * copies
    same(ctx, "len", len(L), n)
    walk(ctx, rng, "repeat", L, lambda i: block[i % k])
    ctx.mark("%s of %d elements, to_list" % (kind, n))
    got = L.to_list()
    if got != block * copies:
        raise Violation("giant-to_list", "%d elements" % n)
    ctx.count("giant elements compared", n)
    del got
    here = "here"
    L[n - 2] = here
    same(ctx, "index", [L.index(here), L.count(here), here in L], [n - 2, 1, True])
    M = L.copy()
    same(ctx, "eq", [L == M, L != M, len(M)], [True, False, n])
    del L
    ctx.mark("%s of %d elements, changes" % (kind, n))
    M.reverse()
    same(ctx, "reverse", M[:4], [block[-1], here, block[(n - 3) % k], block[(n - 4) % k]])
    walk(ctx, rng, "reverse", M, lambda i: here if i == 1 else block[(n - 1 - i) % k])
    same(ctx, "pop", M.pop(1), here)
    walk(ctx, rng, "pop", M, lambda i: block[(n - 1 - i - (i > 0)) % k])
    del M[3:n - 4]
    same(ctx, "delslice", M.to_list(), [block[(n - 1 - i - (i > 0)) % k] for i in (0, 1, 2, n - 4, n - 3, n - 2)])
