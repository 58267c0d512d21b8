"""U01: the raw memory calls against a shadow model of every live block."""
import ctypes
import gc
import os
import random
import sys

from lib.mem import PAGE, Guarded, Tiled, room
from lib.monitor import Violation

RULE = ("History cases: a random history of malloc, calloc, realloc, free, aligned_malloc, aligned_free, get, set, memcpy "
        "and memset over up to 40 live blocks; a shadow model holds the expected bytes of every live block, which are "
        "read back independently after each call, together with disjointness, size and alignment of the blocks. Edge "
        "cases: accesses up to the exact ends of memory between unmapped pages, the whole region compared afterwards. "
        "Refusal cases: requests that cannot be met, malformed arguments and injected allocation failures, with all "
        "live memory compared. Leak cases: one call form repeated 300 times between two readings of the allocator. "
        "distinct_nontrivial counts distinct (call, sizes, offsets, alignment) steps checked.")
ASSUMPTIONS = ["bytes returned by malloc and by growing realloc are indeterminate until written",
               "overlapping memcpy ranges and addresses outside live blocks are the caller's fault and not generated"]

libc = ctypes.CDLL(None)
libc.malloc_usable_size.restype = ctypes.c_size_t
libc.malloc_usable_size.argtypes = [ctypes.c_void_p]
SIZES = [0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 25, 31, 32, 33, 40, 41, 56, 57, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257,
         511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 20000]
BIG = [65535, 65536, 65537, 131071, 131072, 131073, 200000, 262147, 1 << 20]


def shards(tier, seed):
    from lib import failing
    n = {"quick": 12000, "thorough": 200000}[tier]
    env = failing.shard_env()
    return [dict(name="history", lo=0, hi=n, split=5, mode="history"),
            dict(name="asan-history", variant="asan", lo=0, hi=n // 4, split=3, mode="history"),
            dict(name="edges", lo=0, hi=n * 2, split=2, mode="edge"),
            dict(name="asan-edges", variant="asan", lo=0, hi=n // 2, split=1, mode="edge"),
            dict(name="refusals", lo=0, hi=n, split=2, mode="refuse"),
            dict(name="asan-refusals", variant="asan", lo=0, hi=n // 4, split=1, mode="refuse"),
            dict(name="failures", lo=0, hi=n, split=1, mode="fail", env=env),
            dict(name="middle", lo=0, hi=150 if tier == "quick" else 5000, split=2, mode="middle", rlimit_mb=0, weight=80),
            dict(name="vast", lo=0, hi=7 if tier == "quick" else 70, split=1, mode="vast", rlimit_mb=0, weight=50),
            dict(name="leaks", lo=0, hi=len(LEAKS) * (2 if tier == "quick" else 10), split=2, mode="leak")]


def setup(ctx, shard):
    global unsafe, region, region2
    from pyfastutil.unsafe import Unsafe
    unsafe = Unsafe()
    region = Guarded(2 * PAGE)
    region2 = Guarded(2 * PAGE)


def run_case(ctx, shard, case):
    {"history": history, "edge": edge, "refuse": refuse, "fail": fail, "vast": vast, "middle": middle, "leak": leak}[shard["mode"]](ctx, shard, case)


def peek(address, n):
    return ctypes.string_at(address, n)


class Block:
    __slots__ = ("address", "size", "data", "aligned")

    def __init__(self, address, size, data, aligned):
        self.address, self.size, self.data, self.aligned = address, size, data, aligned


def some_size(rng):
    r = rng.random()
    if r < 0.35:
        return rng.randrange(0, 130)
    if r < 0.93:
        return rng.choice(SIZES)
    if r < 0.97:
        return rng.randrange(0, 40000)
    return rng.choice(BIG)


class Shadow:
    """Every live block and what it has to contain."""

    def __init__(self, ctx, asan):
        self.ctx, self.rng, self.asan = ctx, ctx.rng, asan
        self.blocks = []
        self.log = []

    def trace(self):
        return "history:" + "".join("\n    " + t for t in self.log[-30:])

    def bad(self, kind, text):
        raise Violation(kind, text + "\n" + self.trace())

    def address(self, value, size, alignment=16, what="malloc"):
        if type(value) is not int or value <= 0 or value >= 1 << 64:
            self.bad("address-" + what, "%s returned %r" % (what, value))
        if value % min(alignment, 1 << 62):
            self.bad("alignment-" + what, "%s(%d) returned %#x, not aligned to %d" % (what, size, value, alignment))
        for b in self.blocks:
            if value < b.address + max(1, b.size) and b.address < value + max(1, size):
                self.bad("overlap-" + what, "%s(%d) returned %#x inside the live block %#x of %d bytes" % (
                    what, size, value, b.address, b.size))
        return value

    def usable(self, address, size, what):
        # a lower bound on the real size, from the allocator itself
        if libc.malloc_usable_size(address) < size:
            self.bad("size-" + what, "%s: the block has %d usable bytes, %d were requested" % (
                what, libc.malloc_usable_size(address), size))

    def fill(self, b, start=0):
        """Gives the bytes from start on known contents, through the library or directly."""
        n = b.size - start
        how = self.rng.randrange(3)
        if how == 0:
            data = self.rng.randbytes(n)
            unsafe.set(b.address + start, data)
        elif how == 1:
            v = self.rng.randrange(256)
            unsafe.memset(b.address + start, v, n)
            data = bytes([v]) * n
        else:
            data = self.rng.randbytes(n)
            ctypes.memmove(b.address + start, data, n)
        b.data[start:] = data

    def add(self, address, size, aligned, data=None):
        b = Block(address, size, bytearray(size), aligned)
        self.blocks.append(b)
        if data is None:
            self.fill(b)
        else:
            b.data[:] = data
        return b

    def check(self, b, why):
        got = peek(b.address, b.size)
        if got != b.data:
            i = next(i for i in range(b.size) if got[i] != b.data[i])
            self.bad("contents-" + why, "byte %d of a block of %d bytes is %02x instead of %02x (%d bytes differ)" % (
                i, b.size, got[i], b.data[i], sum(x != y for x, y in zip(got, b.data))))
        self.ctx.count("bytes compared", b.size)

    def check_all(self, why):
        for b in self.blocks:
            self.check(b, why)


def free_all(s):
    while s.blocks:
        b = s.blocks.pop()
        (unsafe.aligned_free if b.aligned else unsafe.free)(b.address)


def history(ctx, shard, case):
    rng = ctx.rng
    s = Shadow(ctx, shard.get("variant") == "asan")
    try:
        steps(ctx, s, rng.choice([20, 40, 80]))
    finally:
        if sys.exc_info()[0] is None:
            free_all(s)


def steps(ctx, s, count):
    rng = ctx.rng
    for _ in range(count):
        name = rng.choice(["malloc", "calloc", "realloc", "realloc", "free", "aligned_malloc", "aligned_free", "get", "set",
                           "set", "memcpy", "memcpy", "memset"])
        plain = [b for b in s.blocks if not b.aligned]
        if len(s.blocks) > 40:
            name = "free" if plain else "aligned_free"
        touched = []
        if name == "malloc":
            size = some_size(rng)
            note = "malloc(%d)" % size
            ctx.mark(note)
            s.log.append(note)
            a = s.address(unsafe.malloc(size), size)
            s.usable(a, size, "malloc")
            touched.append(s.add(a, size, False))
        elif name == "calloc":
            size = some_size(rng)
            num = rng.choice([1, size, 2, 3, 7, 0, 16])
            unit = 1 if num == size else min(size, 20000 // max(1, num))
            note = "calloc(%d, %d)" % (num, unit)
            ctx.mark(note)
            s.log.append(note)
            a = s.address(unsafe.calloc(num, unit), num * unit, 16, "calloc")
            s.usable(a, num * unit, "calloc")
            touched.append(s.add(a, num * unit, False, bytes(num * unit)))
            s.check(touched[0], "calloc")
            s.fill(touched[0])
        elif name == "realloc":
            if plain and rng.random() < 0.95:
                b = rng.choice(plain)
                size = max(0, b.size + rng.randrange(-20, 40)) if rng.random() < 0.3 else some_size(rng)
                note = "realloc(block of %d, %d)" % (b.size, size)
                ctx.mark(note)
                s.log.append(note)
                s.blocks.remove(b)
                a = s.address(unsafe.realloc(b.address, size), size, 16, "realloc")
                s.usable(a, size, "realloc")
                keep = min(size, b.size)
                old = bytes(b.data[:keep])
                s.blocks.append(b)
                b.address, b.size = a, size
                b.data = bytearray(old + bytes(size - keep))
                got = peek(a, keep)
                if got != old:
                    i = next(i for i in range(keep) if got[i] != old[i])
                    s.bad("contents-realloc", "byte %d of %d that had to be kept is %02x instead of %02x" % (
                        i, keep, got[i], old[i]))
                s.fill(b, keep)
                touched.append(b)
            else:
                size = some_size(rng)
                note = "realloc(0, %d)" % size
                ctx.mark(note)
                s.log.append(note)
                a = s.address(unsafe.realloc(0, size), size, 16, "realloc")
                s.usable(a, size, "realloc")
                touched.append(s.add(a, size, False))
        elif name == "free":
            if not plain:
                continue
            b = rng.choice(plain)
            note = "free(block of %d)" % b.size
            ctx.mark(note)
            s.log.append(note)
            s.blocks.remove(b)
            if unsafe.free(b.address) is not None:
                s.bad("return-free", "free returned something")
        elif name == "aligned_malloc":
            size = some_size(rng)
            alignment = 1 << rng.choice([0, 1, 2, 3, 4, 5, 5, 6, 6, 7, 8, 9, 10, 11, 12, 12, 13, 16, rng.choice([14, 15, 17, 18, 20, 22])])
            note = "aligned_malloc(%d, %d)" % (size, alignment)
            ctx.mark(note)
            s.log.append(note)
            a = s.address(unsafe.aligned_malloc(size, alignment), size, alignment, "aligned_malloc")
            touched.append(s.add(a, size, True))
        elif name == "aligned_free":
            aligned = [b for b in s.blocks if b.aligned]
            if not aligned:
                continue
            b = rng.choice(aligned)
            note = "aligned_free(block of %d)" % b.size
            ctx.mark(note)
            s.log.append(note)
            s.blocks.remove(b)
            if unsafe.aligned_free(b.address) is not None:
                s.bad("return-aligned_free", "aligned_free returned something")
        elif not s.blocks:
            continue
        elif name == "get":
            b = rng.choice(s.blocks)
            o = rng.randrange(b.size + 1)
            n = rng.choice([b.size - o, rng.randrange(b.size - o + 1)])
            note = "get(block of %d + %d, %d)" % (b.size, o, n)
            ctx.mark(note)
            s.log.append(note)
            got = unsafe.get(b.address + o, n)
            if type(got) is not bytes or got != b.data[o:o + n]:
                s.bad("get", "%s returned %.60r" % (note, got))
            touched.append(b)
        elif name == "set":
            b = rng.choice(s.blocks)
            o = rng.randrange(b.size + 1)
            n = rng.choice([b.size - o, rng.randrange(b.size - o + 1)])
            data = rng.choice([rng.randbytes(n), bytes(n), b"\xff" * n])
            note = "set(block of %d + %d, %d bytes)" % (b.size, o, n)
            ctx.mark(note)
            s.log.append(note)
            if unsafe.set(b.address + o, data) is not None:
                s.bad("return-set", "set returned something")
            b.data[o:o + n] = data
            touched.append(b)
        elif name == "memcpy":
            b, c = rng.choice(s.blocks), rng.choice(s.blocks)
            if b is c:
                m = rng.randrange(b.size + 1)
                lo, hi = (0, m), (m, b.size)
                src, dst = (lo, hi) if rng.random() < 0.5 else (hi, lo)
                o = rng.randrange(src[0], src[1] + 1)
                p = rng.randrange(dst[0], dst[1] + 1)
                n = min(src[1] - o, dst[1] - p)
            else:
                o, p = rng.randrange(b.size + 1), rng.randrange(c.size + 1)
                n = min(b.size - o, c.size - p)
            if rng.random() < 0.5:
                n = rng.randrange(n + 1)
            note = "memcpy(block of %d + %d, block of %d + %d%s, %d)" % (b.size, o, c.size, p, " (same)" if b is c else "", n)
            ctx.mark(note)
            s.log.append(note)
            if unsafe.memcpy(b.address + o, c.address + p, n) is not None:
                s.bad("return-memcpy", "memcpy returned something")
            c.data[p:p + n] = b.data[o:o + n]
            touched += [b, c]
        else:
            b = rng.choice(s.blocks)
            o = rng.randrange(b.size + 1)
            n = rng.choice([b.size - o, rng.randrange(b.size - o + 1)])
            v = some_byte(rng)
            note = "memset(block of %d + %d, %d, %d)" % (b.size, o, v, n)
            ctx.mark(note)
            s.log.append(note)
            if unsafe.memset(b.address + o, v, n) is not None:
                s.bad("return-memset", "memset returned something")
            b.data[o:o + n] = bytes([v % 256]) * n
            touched.append(b)
        ctx.count("call " + name)
        ctx.distinct(note)
        if rng.random() < 0.3:
            s.check_all(name)
        else:
            for b in touched + ([rng.choice(s.blocks)] if s.blocks else []):
                s.check(b, name)
        ctx.maximum("live blocks", len(s.blocks))
    s.check_all("end")
    ctx.sample(s.trace()[:600])


def some_byte(rng):
    r = rng.random()
    if r < 0.6:
        return rng.randrange(256)
    if r < 0.8:
        return rng.randrange(-300, 600)
    bits = rng.choice([8, 9, 15, 16, 31, 32, 33, 63, 64, 65, 100])
    return rng.choice([1, -1]) * (rng.getrandbits(bits) | 1 << bits - 1) + rng.choice([0, 1, -1])


def edge(ctx, shard, case):
    """Accesses that end or start at unmapped pages."""
    rng = ctx.rng
    size = region.size
    base = rng.randbytes(64) * (size // 64)
    base2 = rng.randbytes(64) * (size // 64)
    region.put(region.start, base)
    region2.put(region2.start, base2)
    n = rng.choice([rng.randrange(0, 70), rng.randrange(0, 300), rng.choice([x for x in SIZES if x <= size]), size])
    o = rng.choice([0, size - n, rng.randrange(size - n + 1)])
    a = region.start + o
    name = rng.choice(["get", "set", "memset", "memcpy", "memcpy-self"])
    note = "%s of %d bytes at offset %d of %d" % (name, n, o, size)
    want, want2 = bytearray(base), bytearray(base2)
    if name == "get":
        ctx.mark(note)
        region.readonly()
        try:
            got = unsafe.get(a, n)
        finally:
            region.readonly(False)
        if got != base[o:o + n]:
            raise Violation("get", "%s: %.80r" % (note, got))
    elif name == "set":
        data = rng.randbytes(n)
        ctx.mark(note)
        unsafe.set(a, data)
        want[o:o + n] = data
    elif name == "memset":
        v = some_byte(rng)
        note += " to %d" % v
        ctx.mark(note)
        unsafe.memset(a, v, n)
        want[o:o + n] = bytes([v % 256]) * n
    elif name == "memcpy":
        p = rng.choice([0, size - n, rng.randrange(size - n + 1)])
        note += " from offset %d" % p
        ctx.mark(note)
        region2.readonly()
        try:
            unsafe.memcpy(region2.start + p, a, n)
        finally:
            region2.readonly(False)
        want[o:o + n] = base2[p:p + n]
    else:
        n = min(n, size // 2)
        first = rng.choice([0, rng.randrange(size - 2 * n + 1)])
        second = rng.choice([first + n, size - n, rng.randrange(first + n, size - n + 1)])
        if rng.random() < 0.5:
            first, second = second, first
        note = "memcpy of %d bytes from %d to %d" % (n, first, second)
        ctx.mark(note)
        unsafe.memcpy(region.start + first, region.start + second, n)
        want[second:second + n] = base[first:first + n]
    for r, w in ((region, want), (region2, want2)):
        got = r.get(r.start, size)
        if got != w:
            i = next(i for i in range(size) if got[i] != w[i])
            raise Violation("edge-" + name, "%s: byte %d is %02x instead of %02x" % (note, i, got[i], w[i]))
    ctx.count("edge access " + name)
    ctx.distinct("edge", note)


def middle(ctx, shard, case):
    """Ranges of tens of kilobytes to tens of megabytes, flush with unmapped pages, and allocations of such sizes."""
    rng = ctx.rng
    n = (1 << rng.choice([13, 14, 15, 16, 16, 17, 18, 19, 20, 21, 22, 23, 24, 24, 25, 26])) + rng.choice(
        [0, 1, -1, 7, rng.randrange(4096), rng.randrange(-8000, 8000)])
    n += rng.randrange(n) if rng.random() < 0.5 else 0
    data = rng.randbytes(n)
    name = rng.choice(["memset", "memcpy", "get", "set", "realloc", "realloc", "calloc", "aligned", "reuse"])
    note = "%s of %d bytes" % (name, n)
    ctx.mark(note)
    if name in ("memset", "memcpy", "get", "set"):
        a, b = Guarded(n), Guarded(n)
        try:
            at, to = [rng.choice([g.start, g.end - n]) for g in (a, b)]
            a.put(at, data)
            b.view[:] = b"\xa5" * b.size
            want = bytearray(b.view)
            if name == "memset":
                v = rng.randrange(-300, 600)
                unsafe.memset(to, v, n)
                want[to - b.start:to - b.start + n] = bytes([v % 256]) * n
            else:
                if name == "memcpy":
                    unsafe.memcpy(at, to, n)
                elif name == "get":
                    got = unsafe.get(at, n)
                    if type(got) is not bytes or got != data:
                        raise Violation("middle-get", "%s gives %d bytes" % (note, len(got)))
                    b.put(to, got)
                else:
                    unsafe.set(to, data)
                want[to - b.start:to - b.start + n] = data
            if b.view != want:
                raise Violation("middle-" + name, note + ": bytes are missing, wrong or outside")
            if a.get(at, n) != data:
                raise Violation("middle-source", note + ": the source changed")
        finally:
            a.close()
            b.close()
    else:
        sizes = [n] + [max(1, n * rng.randrange(1, 300) // 100 + rng.randrange(-3, 4)) for _ in range(5)]
        p = unsafe.calloc(*rng.choice([(1, n), (n, 1)])) if name == "calloc" else \
            unsafe.aligned_malloc(n, 1 << rng.randrange(13)) if name == "aligned" else unsafe.malloc(n)
        try:
            if name == "calloc" and unsafe.get(p, n) != bytes(n):
                raise Violation("middle-calloc", note + ": not zero")
            unsafe.set(p, data)
            have = data
            for k in sizes[1:] if name == "realloc" else []:
                p = unsafe.realloc(p, k)
                kept = min(k, len(have))
                if unsafe.get(p, kept) != have[:kept]:
                    raise Violation("middle-realloc", "%d bytes to %d: contents lost" % (len(have), k))
                have = rng.randbytes(k)
                unsafe.set(p, have)
            others = [(q, m) for m in sizes[1:] for q in [unsafe.malloc(m)]]
            for q, m in others:
                unsafe.memset(q, 0x3c, m)
            if unsafe.get(p, len(have)) != have:
                raise Violation("middle-overlap", "a block of %d bytes changed with others" % len(have))
            for q, m in others:
                if unsafe.get(q, m) != b"\x3c" * m:
                    raise Violation("middle-overlap", "a block of %d bytes changed" % m)
                unsafe.free(q)
        finally:
            (unsafe.aligned_free if name == "aligned" else unsafe.free)(p)
    ctx.count("bytes in middling ranges", n)
    ctx.distinct("middle", note)


def vast(ctx, shard, case):
    """Ranges of more than 2**31 and 2**32 bytes, through repeated mappings of the same pages."""
    rng = ctx.rng
    n = (1 << rng.choice([31, 32])) + rng.randrange(1, 5000)
    name = ["memset", "memcpy", "get", "memset", "memcpy", "set", "set"][case % 7]
    zeros = case % 7 == 6  # (a source of zeros takes no memory)
    if zeros:
        n = (1 << 32) + rng.randrange(1, 5000)
    elif name in ("get", "set"):
        n = (1 << 31) + rng.randrange(1, 5000)
        if not room(3):
            return ctx.count("vast get and set skipped for want of memory")
    a, b = Tiled(n + 4096), Tiled(n + 4096)
    try:
        tile = rng.randbytes(4096) * (a.period // 4096)
        a.view[:] = tile
        b.view[:] = bytes(a.period)
        o = rng.randrange(4096)
        note = "%s of %d bytes" % (name, n)
        ctx.mark(note)
        want = tile
        if name == "memset":
            v = rng.randrange(1, 256)
            unsafe.memset(b.start + o, v, n)
            want = bytes([v]) * b.period
        elif name == "memcpy":
            unsafe.memcpy(a.start + o, b.start + o, n)
        else:
            got = unsafe.get(a.start, n) if name == "get" else bytes(n) if zeros else bytes(tile * (n // a.period + 1))[:n]
            if len(got) != n:
                raise Violation("vast-get", "%s gives %d" % (note, len(got)))
            if zeros:
                b.view[:] = tile
                want = bytes(b.period)
            if name == "set":
                unsafe.set(b.start, got)
            else:
                whole = memoryview(got)
                for at in range(0, n, a.period):
                    if whole[at:at + a.period] != tile[:min(a.period, n - at)]:
                        raise Violation("vast-get", "%s: wrong bytes after byte %d" % (note, at))
                b.view[:] = tile
                whole = None
            got = None
        if b.view != want:
            raise Violation("vast-" + name, "%s: bytes are missing or wrong" % note)
        if a.view != tile:
            raise Violation("vast-source", "%s: the source changed" % note)
    finally:
        a.close()
        b.close()
    ctx.count("bytes handled through repeated mappings", n)
    ctx.distinct("vast", note)


def refuse(ctx, shard, case):
    """Calls that have to raise; nothing may change."""
    rng = ctx.rng
    asan = shard.get("variant") == "asan"
    s = Shadow(ctx, asan)
    for _ in range(rng.randrange(1, 6)):
        if rng.random() < 0.6:
            size = some_size(rng)
            s.add(s.address(unsafe.malloc(size), size), size, False)
        else:
            size = some_size(rng)
            s.add(s.address(unsafe.aligned_malloc(size, 64), size, 64), size, True)
    plain = [b for b in s.blocks if not b.aligned]
    before = (sys.getallocatedblocks())
    b = rng.choice(s.blocks)
    huge = rng.choice([1 << 62, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 64) - 64, 1 << 50])
    outside = rng.choice([1 << 64, (1 << 64) + 8, 1 << 80, -1, -8, -(1 << 63), -(1 << 64)])
    wrong = rng.choice([None, "8", 8.0, b"8", [8], (8,), object(), {}, 1.5, float("nan"), 3 + 0j])
    half = 1 << rng.randrange(31, 34)
    unmet = [("malloc", (huge,)), ("calloc", (1, huge)), ("calloc", (huge, 1)), ("calloc", (huge, huge)),
             ("calloc", (1 << 33, 1 << 33)), ("calloc", (half * 2, (1 << 63) // half)), ("calloc", ((1 << 63) + 1, 2)),
             ("calloc", ((1 << 64) - 1, 3)), ("aligned_malloc", (huge, 64)), ("aligned_malloc", (huge, 1))]
    if plain:
        unmet += [("realloc", (rng.choice(plain).address, huge))] * 4
    odd = [("aligned_malloc", (64, a)) for a in (0, 3, 5, 6, 7, 12, 24, 48, 63, 65, 100, 1000)]
    bad = []
    A = b.address
    for v in (outside, wrong):
        bad += [("malloc", (v,)), ("calloc", (v, 1)), ("calloc", (1, v)), ("realloc", (A, v)), ("realloc", (v, 8)),
                ("aligned_malloc", (v, 64)), ("aligned_malloc", (64, v)), ("get", (A, v)), ("memset", (A, 7, v)),
                ("memcpy", (A, A, v))]
    far = rng.choice([1 << 64, 1 << 90, -(1 << 64)])
    for v in (far, wrong):
        bad += [("free", (v,)), ("aligned_free", (v,)), ("get", (v, 1)), ("set", (v, b"xx")), ("memset", (v, 0, 1)),
                ("memcpy", (v, A, 0)), ("memcpy", (A, v, 0))]
    bad += [("memset", (A, rng.choice([None, "a", b"a", 1.5, [1]]), min(b.size, 4))),
            ("set", (A, rng.choice(["ab", 5, None, [1, 2], 1.5]))), ("get", (A, huge | 1 << 63)),
            ("get", (A, (1 << 63) - 1)), ("get", (A, 1 << 60))]
    counts = {"malloc": 1, "calloc": 2, "realloc": 2, "free": 1, "aligned_malloc": 2, "aligned_free": 1, "get": 2, "set": 2,
              "memcpy": 3, "memset": 3}
    for name, n in counts.items():
        for m in (0, n - 1, n + 1, n + 5):
            if m != n:
                bad.append((name, ([A, 7, 0] + [0] * 10)[:m]))
    kind, group = rng.choice([("unmet", unmet), ("odd", odd), ("bad", bad), ("bad", bad)])
    name, args = rng.choice(group)
    note = "%s(%s)" % (name, ", ".join("block" if x == A and type(x) is int else repr(x)[:40] for x in args))
    ctx.mark(note)
    try:
        result = getattr(unsafe, name)(*args)
    except Exception as e:
        if kind == "unmet" and not isinstance(e, (MemoryError, OverflowError)):
            raise Violation("refusal-kind-" + name, "%s raised %r, MemoryError is documented" % (note, e))
        if isinstance(e, SystemError):
            raise Violation("refusal-systemerror-" + name, "%s raised %r" % (note, e))
        ctx.count("refused with " + type(e).__name__)
    else:
        raise Violation("accepted-" + name, "%s returned %r" % (note, result))
    s.check_all("after " + name)
    for b in s.blocks:  # still live: can be given back
        if not b.aligned and rng.random() < 0.5:
            a = unsafe.realloc(b.address, b.size + 64)
            if peek(a, b.size) != b.data:
                s.bad("contents-after-" + name, "a block lost its contents after " + note)
            b.address = a
    free_all(s)
    ctx.distinct("refuse", note)
    ctx.sample(note)


def fail(ctx, shard, case):
    """The allocation inside the call fails."""
    from lib import failing
    fm = getattr(fail, "fm", None)
    if fm is None:
        fm = fail.fm = failing.module()
    rng = ctx.rng
    quiet(lambda: unsafe.malloc("a"))
    start = c_memory()
    s = Shadow(ctx, False)
    for _ in range(rng.randrange(1, 5)):
        size = some_size(rng)
        s.add(s.address(unsafe.malloc(size), size), size, False)
    b = rng.choice(s.blocks)
    size = rng.choice([some_size(rng), rng.choice(BIG)])
    calls = [("malloc", (size,)), ("calloc", (size, 2)), ("aligned_malloc", (size, 1 << rng.randrange(13))),
             ("realloc", (b.address, rng.choice([size, b.size + 5000, b.size // 2, 0]))), ("realloc", (0, size)),
             ("get", (b.address, b.size)), ("set", (b.address, bytes(b.data))), ("memset", (b.address, 300, 0)),
             ("free", (0,)), ("aligned_free", (0,))]
    name, args = rng.choice(calls)
    at, mode = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (3, 1)])
    note = "%s%r, allocation %d failing (mode %d)" % (name, tuple(
        "block" if x == b.address else "%d bytes" % len(x) if type(x) is bytes else x for x in args), at, mode)
    ctx.mark(note)
    method = getattr(unsafe, name)
    seen, failures, raised, result = fm.call(at, mode, method, *args)
    if raised:
        if not failures:
            raise Violation("failure-none-" + name, "%s raised %r although nothing failed" % (note, result))
        if not isinstance(result, MemoryError):
            raise Violation("failure-kind-" + name, "%s raised %r" % (note, result))
        if name == "realloc" and args[0] and at > 1:
            # the block has been moved, nobody knows where to
            s.blocks.remove(b)
            got = b.data == peek(b.address, b.size)
            ctx.violation("failure-lost-realloc", "%s raised %r after the block had been moved (contents at the old "
                          "address %s)" % (note, result, "intact" if got else "gone"))
            return
    elif name in ("malloc", "calloc", "aligned_malloc") or name == "realloc" and args[0] == 0:
        if name == "calloc":
            size *= 2
        if failures and at == 1:
            # nothing but the block itself is needed first
            if not result:
                raise Violation("failure-ignored-" + name, "%s returned %r" % (note, result))
        s.add(s.address(result, size, 1, name), size, name == "aligned_malloc")
    elif name == "realloc":
        keep = min(args[1], b.size)
        if peek(result, keep) != b.data[:keep]:
            raise Violation("failure-contents-realloc", note)
        b.address, b.size = result, args[1]
        b.data = bytearray(peek(result, args[1]))
    elif name == "get" and result != b.data:
        raise Violation("failure-contents-get", "%s returned %.60r" % (note, result))
    s.check_all("after failing " + name)
    free_all(s)
    b = s = result = args = calls = method = None
    grown = c_memory() - start
    if grown > 30000:
        raise Violation("failure-leak-" + name, "%s: %d bytes of C memory are left once every block is freed" % (note, grown))
    ctx.count("failed allocations" if failures else "calls without a failure")
    ctx.distinct("fail", note)


def quiet(fn):
    try:
        fn()
    except Exception:
        pass


LEAKS = [
    ("malloc-free", lambda u, n, d, p: u.free(u.malloc(n))), ("calloc-free", lambda u, n, d, p: u.free(u.calloc(n, 3))),
    ("realloc-grow", lambda u, n, d, p: u.free(u.realloc(u.malloc(n), n * 4 + 100))),
    ("realloc-shrink", lambda u, n, d, p: u.free(u.realloc(u.malloc(n * 4 + 100), n))),
    ("realloc-zero", lambda u, n, d, p: u.free(u.realloc(u.malloc(n), 0))),
    ("realloc-null", lambda u, n, d, p: u.free(u.realloc(0, n))),
    ("aligned-16", lambda u, n, d, p: u.aligned_free(u.aligned_malloc(n, 16))),
    ("aligned-1", lambda u, n, d, p: u.aligned_free(u.aligned_malloc(n, 1))),
    ("aligned-64", lambda u, n, d, p: u.aligned_free(u.aligned_malloc(n, 64))),
    ("aligned-4096", lambda u, n, d, p: u.aligned_free(u.aligned_malloc(n, 4096))),
    ("get", lambda u, n, d, p: u.get(p, n)), ("set", lambda u, n, d, p: u.set(p, d)),
    ("memcpy", lambda u, n, d, p: u.memcpy(p, p + 4096, n)), ("memset", lambda u, n, d, p: u.memset(p, 2 ** 70 + 9, n)),
    ("free-null", lambda u, n, d, p: (u.free(0), u.aligned_free(0))),
    ("malloc-unmet", lambda u, n, d, p: quiet(lambda: u.malloc(1 << 62))),
    ("calloc-unmet", lambda u, n, d, p: quiet(lambda: u.calloc(1 << 62, 8))),
    ("realloc-unmet", lambda u, n, d, p: (lambda q: (quiet(lambda: u.realloc(q, 1 << 62)), u.free(q)))(u.malloc(n))),
    ("aligned-unmet", lambda u, n, d, p: quiet(lambda: u.aligned_malloc(1 << 62, 64))),
    ("aligned-odd", lambda u, n, d, p: quiet(lambda: u.aligned_malloc(n, 24))),
    ("aligned-none", lambda u, n, d, p: quiet(lambda: u.aligned_malloc(n, 0))),
    ("malloc-type", lambda u, n, d, p: quiet(lambda: u.malloc("a"))),
    ("malloc-negative", lambda u, n, d, p: quiet(lambda: u.malloc(-n - 1))),
    ("calloc-type", lambda u, n, d, p: quiet(lambda: u.calloc(n, "a"))),
    ("realloc-type", lambda u, n, d, p: quiet(lambda: u.realloc(p, None))),
    ("get-type", lambda u, n, d, p: quiet(lambda: u.get(p, 1.5))),
    ("get-unmet", lambda u, n, d, p: quiet(lambda: u.get(p, (1 << 63) - 100))),
    ("set-type", lambda u, n, d, p: quiet(lambda: u.set(p, "text"))),
    ("memset-type", lambda u, n, d, p: quiet(lambda: u.memset(p, "a", 1))),
    ("memset-size", lambda u, n, d, p: quiet(lambda: u.memset(p, 1, -1))),
    ("memcpy-size", lambda u, n, d, p: quiet(lambda: u.memcpy(p, p, 1 << 70))),
    ("memcpy-type", lambda u, n, d, p: quiet(lambda: u.memcpy(p, "p", 0))),
    ("counts", lambda u, n, d, p: (quiet(lambda: u.malloc()), quiet(lambda: u.memcpy(p)), quiet(lambda: u.get(p)))),
    ("object", lambda u, n, d, p: type(u)().free(0)),
    ("context", lambda u, n, d, p: [None for _ in [0] if u.__enter__() is u and u.__exit__(None, None, None) is None]),
]


class MallInfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks",
                                               "uordblks", "fordblks", "keepcost")]


def c_memory():
    f = ctypes.CDLL(None).mallinfo2
    f.restype = MallInfo
    m = f()
    return m.uordblks + m.hblkhd


def leak(ctx, shard, case):
    name, call = LEAKS[case % len(LEAKS)]
    rng = ctx.rng
    n = rng.choice([1, 24, 100, 1000, 4000])
    data = rng.randbytes(n)
    p = region.start
    ctx.mark("%s %d" % (name, n))
    for _ in range(20):
        call(unsafe, n, data, p)
    for attempt in range(3):
        gc.collect()
        before = sys.getallocatedblocks(), c_memory(), sys.getrefcount(data), sys.getrefcount(unsafe), sys.gettotalrefcount() \
            if hasattr(sys, "gettotalrefcount") else 0
        for _ in range(300):
            call(unsafe, n, data, p)
        gc.collect()
        after = sys.getallocatedblocks(), c_memory(), sys.getrefcount(data), sys.getrefcount(unsafe)
        moved = [x - y for x, y in zip(after, before)]
        if moved[0] < 150 and moved[1] < 300 * 16 and abs(moved[2]) < 150 and abs(moved[3]) < 150:
            break
    else:
        raise Violation("leak-" + name, "300 calls of %s (%d bytes) left %d interpreter blocks, %d bytes of C memory; the "
                        "argument's count moved by %d, the object's by %d (three times in a row)" % ((name, n) + tuple(moved)))
    ctx.count("calls repeated for leaks", 300)
    ctx.distinct("leak", name, n)
