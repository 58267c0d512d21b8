"""The element types of the SIMD copy and reverse functions, and one monitored call of each."""
import ctypes

from lib.mem import Guarded
from lib.monitor import Violation

C = ctypes
TYPES = {
    "Int": C.c_int, "UnsignedInt": C.c_uint, "Long": C.c_long, "UnsignedLong": C.c_ulong, "LongLong": C.c_longlong,
    "UnsignedLongLong": C.c_ulonglong, "Short": C.c_short, "UnsignedShort": C.c_ushort, "Float": C.c_float,
    "Double": C.c_double, "LongDouble": C.c_longdouble, "Char": C.c_char, "UnsignedChar": C.c_ubyte,
    "WChar": C.c_wchar, "Char16": C.c_uint16, "Char32": C.c_uint32, "Bool": C.c_bool, "Int8": C.c_int8,
    "UInt8": C.c_uint8, "Int16": C.c_int16, "UInt16": C.c_uint16, "Int32": C.c_int32, "UInt32": C.c_uint32,
    "Int64": C.c_int64, "UInt64": C.c_uint64, "VoidPtr": C.c_void_p, "IntPtr": C.c_void_p, "FloatPtr": C.c_void_p,
    "PyObjectPtr": C.c_void_p,
}
SIZE = {k: C.sizeof(v) for k, v in TYPES.items()}
NAMES = sorted(TYPES)
POOL = None
INVERT = bytes(range(255, -1, -1))


def blocks(size):
    """Two guarded blocks of at least size bytes each, reused."""
    global POOL
    if POOL is None or POOL[0].size < size:
        if POOL:
            for b in POOL:
                b.close()
        POOL = (Guarded(max(size, 1 << 16)), Guarded(max(size, 1 << 16)))
    return POOL


def elements(rng, name, count):
    size = SIZE[name]
    if name == "Bool":
        return (bytes(rng.getrandbits(1) for _ in range(min(count, 9973))) * (count // 9973 + 1))[:count]
    if name == "LongDouble":  # finite numbers: sign, exponent, explicit leading one, then six bytes of padding
        out = [(rng.getrandbits(63) | 1 << 63).to_bytes(8, "little") + rng.randrange(1, 0x7ffe).to_bytes(2, "little") + bytes(6)
               for _ in range(min(count, 9973))]
        return (b"".join(out) * (count // 9973 + 1))[:count * 16]
    return rng.randbytes(count * size)


def norm(name, data):
    """Only the value bytes of a long double count."""
    if name != "LongDouble":
        return data
    return b"".join(data[i:i + 10] for i in range(0, len(data), 16))


def place(rng, block, nbytes, align, where):
    """An address for nbytes inside block, a multiple of align: at its start, its end or anywhere."""
    room = block.size - nbytes
    if where == "start":
        return block.start + min(room, 0 if align > 1 else 0)
    if where == "end":
        return block.start + room // align * align
    return block.start + rng.randrange(room // align + 1) * align


def copy_case(ctx, rng, simd, name, aligned, count, where):
    size = SIZE[name]
    n = count * size
    a, b = blocks(n + 256)
    align = 64 if aligned else rng.choice([1, 1, size, 16])
    src = place(rng, a, n, align, where)
    dst = place(rng, b, n, align, where if rng.random() < 0.7 else "any")
    data = elements(rng, name, count)
    noise_a, noise_b = rng.randbytes(64), rng.randbytes(64)
    lo_a, hi_a = max(a.start, src - 64), min(a.end, src + n + 64)
    lo_b, hi_b = max(b.start, dst - 64), min(b.end, dst + n + 64)
    a.put(lo_a, noise_a[:src - lo_a])
    a.put(src + n, noise_a[:hi_a - src - n])
    b.put(lo_b, noise_b[:dst - lo_b])
    b.put(dst + n, noise_b[:hi_b - dst - n])
    a.put(src, data)
    if n:
        b.put(dst, data.translate(INVERT) if name not in ("Bool", "LongDouble") else bytes(n))
    func = "memcpy" + name + ("Aligned" if aligned else "")
    what = "%s of %d elements, source mod 64 = %d, destination mod 64 = %d, %s" % (
        func, count, src % 64, dst % 64, where)
    ctx.mark(what)
    a.readonly()
    try:
        result = getattr(simd, func)(src, dst, count)
    finally:
        a.readonly(False)
    got = b.get(dst, n)
    if result is not None:
        raise Violation("simd-copy-result", what)
    if norm(name, got) != norm(name, data):
        i = next(i for i in range(n) if got[i] != data[i])
        raise Violation("simd-copy", "%s: element %d differs" % (what, i // size))
    if a.get(src, n) != data:
        raise Violation("simd-copy-source", what + ": the source changed")
    if b.get(lo_b, dst - lo_b) != noise_b[:dst - lo_b] or b.get(dst + n, hi_b - dst - n) != noise_b[:hi_b - dst - n]:
        raise Violation("simd-copy-bounds", what + ": bytes outside the elements were written")
    ctx.count("copies checked")
    ctx.count("bytes compared", n)
    return what, func


def reverse_case(ctx, rng, simd, name, count, where):
    size = SIZE[name]
    n = count * size
    a, _ = blocks(n + 256)
    align = size if rng.random() < 0.8 else 1
    at = place(rng, a, n, align, where)
    data = elements(rng, name, count)
    noise = rng.randbytes(64)
    lo, hi = max(a.start, at - 64), min(a.end, at + n + 64)
    a.put(lo, noise[:at - lo])
    a.put(at + n, noise[:hi - at - n])
    a.put(at, data)
    func = "reverse" + name
    what = "%s of %d elements, address mod 64 = %d, %s" % (func, count, at % 64, where)
    ctx.mark(what)
    result = getattr(simd, func)(at, count)
    got = a.get(at, n)
    want = b"".join(data[i:i + size] for i in range(n - size, -1, -size)) if n else b""
    if result is not None:
        raise Violation("simd-reverse-result", what)
    if norm(name, got) != norm(name, want):
        i = next(i for i in range(n) if got[i] != want[i])
        raise Violation("simd-reverse", "%s: element %d differs" % (what, i // size))
    if a.get(lo, at - lo) != noise[:at - lo] or a.get(at + n, hi - at - n) != noise[:hi - at - n]:
        raise Violation("simd-reverse-bounds", what + ": bytes outside the elements were written")
    ctx.count("reversals checked")
    ctx.count("bytes compared", n)
    return what, func
