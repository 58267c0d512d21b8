"""S01: SIMD memory copy and reverse between guard pages."""
import ctypes

from lib import simdapi
from lib.mem import Guarded, Tiled, libc, room
from lib.monitor import Violation
from checks.S03 import LEVELS

libc.memcmp.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t]

RULE = ("A case is one call of one SIMD memcpy, aligned memcpy or reverse function (all 29 element types) on one "
        "element count (each of 0 to 150, then block boundaries and random counts up to 5000, in the big cases a million, in the vast ones more than 2**32 bytes) at one placement (flush "
        "behind an unmapped page, flush before one, or anywhere, with random misalignment for the unaligned forms), on "
        "every vector level; the source page is write protected during a copy. Or one call with malformed "
        "arguments, after which all of the memory around must be unchanged. distinct_nontrivial counts distinct "
        "(function, count, alignments, placement) with a positive count, and distinct malformed argument tuples.")
ASSUMPTIONS = ["source and destination do not overlap", "aligned forms get 64-byte aligned addresses",
               "for long double only the ten value bytes of an element count"]


def shards(tier, seed):
    n = {"quick": 12000, "thorough": 200000}[tier]
    r = [dict(name="native", lo=0, hi=n, split=4), dict(name="malformed", lo=0, hi=n // 4, split=1, malformed=True),
         dict(name="asan", variant="asan", lo=0, hi=n // 3, split=3)]
    for level, env in LEVELS.items():
        r.append(dict(name="level-" + level, variant="level", env=env, lo=0, hi=n // 2, split=2))
    r.append(dict(name="big", lo=0, hi=n // 30, split=2, mode="big"))
    r.append(dict(name="real", lo=0, hi=24 if tier == "quick" else 400, split=1 if tier == "quick" else 2, mode="real", rlimit_mb=0, weight=50))
    r.append(dict(name="vast", lo=0, hi=8 if tier == "quick" else 120, split=1, mode="vast", rlimit_mb=0, weight=50))
    return r


def setup(ctx, shard):
    global SIMD
    from pyfastutil.unsafe import SIMD as S
    SIMD = S()


COUNTS = [16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 260, 320, 511, 512, 513, 1023, 1024, 1025, 2048, 4097]


def run_case(ctx, shard, case):
    rng = ctx.rng
    if shard.get("malformed"):
        return malformed(ctx, rng)
    if shard.get("mode") == "vast":
        return vast(ctx, rng, case)
    if shard.get("mode") == "real":
        return real(ctx, rng, case)
    name = simdapi.NAMES[case % len(simdapi.NAMES)]
    k = case // len(simdapi.NAMES)
    count = k % 151 if rng.random() < 0.7 else rng.choice([rng.choice(COUNTS), rng.randrange(5000)])
    if shard.get("mode") == "big":
        count = rng.choice([32767, 32768, 65535, 65536, 65537, 70001, 131071, 131072, 131073, 262144, 300007, 1048577]) \
            + rng.choice([0, 0, 1, 15, rng.randrange(5000)])
        count = min(count, (4 << 20) // simdapi.SIZE[name])
    where = rng.choice(["start", "end", "end", "any"])
    how = rng.choice(["copy", "aligned", "reverse"])
    if how == "reverse":
        what, func = simdapi.reverse_case(ctx, rng, SIMD, name, count, where)
    else:
        what, func = simdapi.copy_case(ctx, rng, SIMD, name, how == "aligned", count, where)
    if count:
        ctx.distinct(what)
    ctx.sample(what)


def vast(ctx, rng, case):
    """More than 2**31 and 2**32 bytes: copies through repeated mappings of the same pages, reversal of real memory."""
    name = rng.choice(simdapi.NAMES)
    size = simdapi.SIZE[name]
    total = (1 << rng.choice([31, 32, 32])) + rng.randrange(64, 5000)
    count = total // size
    total = count * size
    if case % 7 == 0:
        name = rng.choice([x for x in simdapi.NAMES if simdapi.SIZE[x] <= 2 and x != "Bool"])
        count = (1 << 32 if simdapi.SIZE[name] == 1 else 1 << 31) + rng.randrange(64, 5000)
        return vast_reverse(ctx, rng, name, count)
    func = "memcpy" + name + rng.choice(["", "Aligned"])
    a, b = Tiled(total + 256), Tiled(total + 256)
    try:
        tile = simdapi.elements(rng, name, a.period // size)
        a.view[:] = tile
        b.view[:] = bytes(a.period)
        o = 0 if func.endswith("Aligned") else rng.randrange(64) * size
        what = "%s of %d elements (%d bytes)" % (func, count, total)
        ctx.mark(what)
        getattr(SIMD, func)(a.start + o, b.start + o, count)
        if simdapi.norm(name, bytes(b.view)) != simdapi.norm(name, tile):
            raise Violation("simd-copy-vast", "%s: not all elements arrived" % what)
        if bytes(a.view) != tile:
            raise Violation("simd-copy-source", what + ": the source changed")
    finally:
        a.close()
        b.close()
    ctx.count("bytes copied through repeated mappings", total)
    ctx.distinct(what)


def real(ctx, rng, case):
    """Copies into and reversals of memory of its own, of 16 MiB to 4 GiB, compared byte by byte (a reversal at its ends and in places)."""
    name = rng.choice([x for x in simdapi.NAMES if x != "LongDouble"])
    size = simdapi.SIZE[name]
    bits = [28, 24, 29, 26, 30, 25, 27, 31][case // 2 % 8]
    total = (1 << bits) + rng.choice([rng.randrange(1, 5000), rng.randrange(1, 1 << bits - 1), size, -size])
    count = total // size
    if case % 2:
        return vast_reverse(ctx, rng, name, count)
    if not room((total >> 30) + 1):
        return ctx.count("large copies skipped for want of memory")
    total = count * size
    func = "memcpy" + name + rng.choice(["", "Aligned"])
    pad = -total % 4096
    a, b = Tiled(total + 4096), Guarded(total + pad, 0x4022)
    try:
        a.view[:] = simdapi.elements(rng, name, a.period // size)
        # the aligned forms start on the page, the others end with it
        to = b.start if func.endswith("Aligned") else b.start + pad
        at = a.start + (0 if func.endswith("Aligned") else rng.randrange(64) * size)
        what = "%s of %d elements (%d bytes)" % (func, count, total)
        ctx.mark(what)
        b.put(b.start, b"\xa5" * pad) if to > b.start else b.put(b.end - pad, b"\xa5" * pad)
        getattr(SIMD, func)(at, to, count)
        if libc.memcmp(at, to, total):
            raise Violation("simd-copy-real", "%s: not all elements arrived" % what)
        if b.get(b.start if to > b.start else b.end - pad, pad) != b"\xa5" * pad:
            raise Violation("simd-copy-outside", what)
    finally:
        a.close()
        b.close()
    ctx.count("bytes copied into blocks of their own", total)
    ctx.distinct(what)


def vast_reverse(ctx, rng, name, count):
    size = simdapi.SIZE[name]
    total = count * size
    what = "reverse%s of %d elements (%d bytes)" % (name, count, total)
    if not room((total >> 30) + 1):
        return ctx.count("vast reversals skipped for want of memory")
    ctx.mark(what)
    block = Guarded(total, 0x4022)
    try:
        window = 1 << 20
        marks = {o: simdapi.elements(rng, name, window // size) for o in (
            0, total - window, total // 2 // size * size - window // 2, 3 * window, total // 3 // size * size)}
        at = block.start
        for o, data in marks.items():
            block.put(at + o, data)
        getattr(SIMD, "reverse" + name)(at, count)
        for o, data in marks.items():
            got = block.get(at + total - o - window, window)
            want = b"".join(data[i:i + size] for i in range(window - size, -1, -size)) if size > 1 else data[::-1]
            if got != want:
                raise Violation("simd-reverse-vast", "%s: the elements from byte %d on are not at their mirrored place" % (what, o))
    finally:
        block.close()
    ctx.count("bytes reversed in vast blocks", total)
    ctx.distinct(what)


BAD = [None, "a", 1.5, b"x", [], -1, 2 ** 64, 2 ** 70, -2 ** 70, object(), 3 + 0j, float("nan"), ()]


class Raises:
    def __index__(self):
        raise RuntimeError("no")

    __int__ = __index__


def malformed(ctx, rng):
    name = rng.choice(simdapi.NAMES)
    which = rng.choice(["memcpy%s", "memcpy%sAligned", "reverse%s"]) % name
    a, b = simdapi.blocks(4096)
    marks = rng.randbytes(512)
    a.put(a.start, marks)
    b.put(b.start, marks[::-1])
    args = [a.start, b.start, 8] if "memcpy" in which else [a.start, 8]
    how = rng.choice(["few", "many", "bad", "bad", "bad", "keyword"])
    kwargs = {}
    if how == "few":
        del args[rng.randrange(len(args)):]
    elif how == "many":
        args += rng.choice([[1], [None], [8, 8]])
    elif how == "keyword":
        kwargs = {"__count": args.pop()}
    else:
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.randrange(len(args))
            bad = rng.choice(BAD + [Raises()])
            # -1 is a representable, if wild, address
            args[i] = -2 ** 65 if bad == -1 and i < len(args) - 1 else bad
    what = "%s%r %r" % (which, tuple(args), kwargs)
    ctx.mark(what)
    try:
        result = getattr(SIMD, which)(*args, **kwargs)
    except SystemError as e:
        raise Violation("simd-malformed-systemerror", "%s raised %r" % (what, e))
    except Exception as e:
        ctx.count("raised " + type(e).__name__)
    else:
        raise Violation("simd-malformed-accepted", "%s returned %r" % (what, result))
    if a.get(a.start, 512) != marks or b.get(b.start, 512) != marks[::-1]:
        raise Violation("simd-malformed-wrote", "%s raised but memory changed" % what)
    ctx.distinct(which, how, tuple(type(x).__name__ if not isinstance(x, int) else x.bit_length() for x in args))
