"""S02: vector setters against struct.pack, with guard bytes and guard pages."""
import struct

from lib.mem import Guarded
from lib.monitor import Violation

RULE = ("A case is one call of one of the six vector setters with one combination of lane values (limits, negatives, "
        "single set bits, random in-range values, one distinguished lane at a time so that every lane position is told "
        "apart, integer subclasses and bools) at one aligned address (the first or last vector of a block between "
        "unmapped pages, or inside); the 32 or 64 bytes and the bytes around are compared with what the lanes "
        "encode. Or one call with too few or many arguments, a non-integer lane or address, or an integer outside the "
        "lane's range. distinct_nontrivial counts distinct (setter, argument list) calls.")
ASSUMPTIONS = ["vectors are stored at addresses aligned to their size"]

SETTERS = {
    "setAVX2Vector32": (32, "i"), "setAVX2Vector16": (32, "h"), "setAVX2Vector8": (32, "b"),
    "setAVX512Vector32": (64, "i"), "setAVX512Vector16": (64, "h"), "setAVX512Vector8": (64, "b"),
}
NAMES = sorted(SETTERS)


class MyInt(int):
    pass


class Raises:
    def __index__(self):
        raise RuntimeError("no")

    __int__ = __index__


def shards(tier, seed):
    n = {"quick": 30000, "thorough": 600000}[tier]
    return [dict(name="values", lo=0, hi=n, split=4), dict(name="asan", variant="asan", lo=0, hi=n // 4, split=2),
            dict(name="malformed", lo=0, hi=n // 3, split=2, malformed=True),
            dict(name="asan-malformed", variant="asan", lo=0, hi=n // 8, split=1, malformed=True)]


def setup(ctx, shard):
    global simd, block
    from pyfastutil.unsafe import SIMD
    simd = SIMD()
    block = Guarded(8192)


def lanes_of(rng, bits, count, case):
    lo, hi = -2 ** (bits - 1), 2 ** (bits - 1) - 1
    how = rng.choice(["one", "random", "edge", "bits", "wide"])
    if how == "one":
        base, mark = rng.choice([(0, -1), (0, 1), (-1, 0), (0, lo), (0, hi), (-2, 5)])
        values = [base] * count
        values[case % count] = mark
    elif how == "edge":
        values = [rng.choice([lo, lo + 1, -1, 0, 1, hi - 1, hi]) for _ in range(count)]
    elif how == "bits":
        values = [rng.choice([1 << rng.randrange(bits - 1), -(1 << rng.randrange(bits))]) for _ in range(count)]
    else:
        values = [rng.randint(lo, hi) for _ in range(count)]
    if rng.random() < 0.1:
        i = rng.randrange(count)
        values[i] = MyInt(values[i]) if rng.random() < 0.5 else rng.random() < 0.5
    return values


def run_case(ctx, shard, case):
    rng = ctx.rng
    name = NAMES[case % 6]
    size, code = SETTERS[name]
    bits = struct.calcsize(code) * 8
    count = size * 8 // bits
    setter = getattr(simd, name)
    address = rng.choice([block.start, block.end - size, block.start + size * rng.randrange(block.size // size)])
    noise = rng.randbytes(256)
    for o in range(0, block.size, 256):
        block.put(block.start + o, noise)
    before = block.get(block.start, block.size)
    values = lanes_of(rng, bits, count, case // 6)
    if shard.get("malformed"):
        return malformed(ctx, rng, name, setter, address, values, bits, size, code, before)
    ctx.mark("%s%r" % (name, values))
    result = setter(address, *values)
    got = block.get(block.start, block.size)
    want = struct.pack("<%d%s" % (count, code), *[int(v) for v in reversed(values)])
    o = address - block.start
    if got[o:o + size] != want or result is not None:
        raise Violation("setter-" + name, "%s%r stored %r" % (
            name, tuple(values), struct.unpack("<%d%s" % (count, code), got[o:o + size])[::-1]))
    if got[:o] != before[:o] or got[o + size:] != before[o + size:]:
        raise Violation("setter-bounds-" + name, "%s at offset %d wrote outside its vector" % (name, o))
    ctx.count("vectors compared")
    ctx.count("lanes compared", count)
    ctx.distinct(name, tuple(values))
    ctx.sample("%s%r" % (name, tuple(values)))


def malformed(ctx, rng, name, setter, address, values, bits, size, code, before):
    args = [address] + values
    how = rng.choice(["few", "many", "lane", "lane", "address", "range", "none", "keyword"])
    kwargs = {}
    if how == "few":
        del args[rng.randrange(1, len(args)):]
    elif how == "none":
        args = []
    elif how == "many":
        args += [0] * rng.choice([1, 2, 40])
    elif how == "lane":
        for _ in range(rng.choice([1, 1, 3])):
            args[rng.randrange(1, len(args))] = rng.choice([None, "1", b"1", [], object(), Raises(), 2j, ()])
    elif how == "address":
        args[0] = rng.choice([None, "x", 1.5, 2 ** 64, 2 ** 90, -2 ** 80, [], b"a", Raises()])
    elif how == "keyword":
        kwargs = {"__A": args.pop()}
    else:
        lo, hi = -2 ** (bits - 1), 2 ** (bits - 1) - 1
        for _ in range(rng.choice([1, 1, 3])):
            args[rng.randrange(1, len(args))] = rng.choice([hi + 1, lo - 1, 2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 63,
                                                            -2 ** 63 - 1, 2 ** 64, 2 ** 100, -2 ** 100, 2 ** bits + 5])
    what = "%s%.700r %r" % (name, tuple(args), kwargs)
    ctx.mark(what)
    raised = None
    try:
        result = setter(*args, **kwargs)
    except Exception as e:
        raised = e
        # converting further arguments after one failed may turn up as SystemError: an exception all the same
        if isinstance(e, SystemError) and sum(not isinstance(a, int) for a in args) < 2:
            raise Violation("setter-systemerror-" + name, "%s raised %r" % (what, e))
    got = block.get(block.start, block.size)
    if raised is not None:
        ctx.count("raised " + type(raised).__name__)
        if got != before:
            raise Violation("setter-wrote-" + name, "%s raised %r but memory changed" % (what, raised))
    elif how != "range":
        raise Violation("setter-accepted-" + name, "%s returned %r" % (what, result))
    else:
        ctx.count("reduced modulo the lane width")
        want = b"".join((int(v) % 2 ** bits).to_bytes(bits // 8, "little") for v in reversed(args[1:]))
        o = address - block.start
        if got[o:o + size] != want or got[:o] != before[:o] or got[o + size:] != before[o + size:]:
            raise Violation("setter-reduced-" + name, "%s stored %s" % (what, got[o:o + size].hex()))
    ctx.distinct(name, how, len(args), tuple(repr(a)[:30] for a in args[:70]))
