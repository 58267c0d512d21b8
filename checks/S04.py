"""S04: the AVX-512 bindings against the C intrinsics their documentation names."""
import ctypes
import json
import math
import os
import struct

from lib import build
from lib.mem import Guarded
from lib.monitor import Violation

RULE = ("A case is one call of one documented AVX-512 binding with one set of operands (vectors mixing special and random "
        "lanes, masks, scalars at their limits; result in memory of its own or in an operand's place; every block "
        "between unmapped pages). The C intrinsic named in the documentation is run on the same memory by a shim "
        "generated from the documented prototypes; result bytes, memory reached through pointer operands and all "
        "other bytes are compared. Or one call of an unsupported binding, or with a wrong number of arguments. "
        "distinct_nontrivial counts distinct (method, operands) cases.")
ASSUMPTIONS = [
    "documentation does not settle whether a C pointer operand is passed as the address itself or as the address of a "
    "cell holding it; the harness passes an address whose cell holds that very address, so both readings agree",
    "addresses are 64-byte aligned as the documentation demands; bytes the C intrinsic leaves undefined are not compared; "
    "two NaNs are equal in floating point results (a compiler may swap the operands of + and *)",
    "25 bindings whose intrinsic takes only compile-time constants are unsupported in GCC builds although documented "
    "without that remark: they must raise NotImplementedError and touch nothing (or compute, if they are ever supported)",
]

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TABLE = json.load(open(os.path.join(HERE, "lib", "avx512_table.json")))
METHODS = sorted(TABLE)
ORACLE = [m for m in METHODS if TABLE[m]["oracle"]]
REFUSED = [m for m in METHODS if not TABLE[m]["oracle"]]
SIZES = {"__m512i": 64, "__m512": 64, "__m512d": 64, "__m256i": 32, "__m256": 32, "__m256d": 32, "__m128i": 16,
         "__m128": 16, "__m128d": 16, "__mmask8": 1, "__mmask16": 2, "int": 4, "unsigned int": 4, "unsigned": 4,
         "long long": 8, "unsigned long long": 8, "float": 4, "double": 8, "char": 1, "short": 2, "unsigned char": 1,
         "_MM_PERM_ENUM": 4, "_MM_MANTISSA_NORM_ENUM": 4, "_MM_MANTISSA_SIGN_ENUM": 4, "void": 0}
INTS = {"int": (4, True), "unsigned int": (4, False), "unsigned": (4, False), "long long": (8, True),
        "unsigned long long": (8, False), "char": (1, True), "short": (2, True)}
DOUBLES = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 2.5, -2.5, 1e308, -1e308, 5e-324, -5e-324, 2.2250738585072014e-308, math.inf,
           -math.inf, math.nan, 2.0 ** 31, -2.0 ** 31, 2.0 ** 31 - 0.5, 2.0 ** 32, 2.0 ** 63, -2.0 ** 63, 2.0 ** 64, 3.75,
           1 / 3, 1e-40, 65504.0, 65520.0, 6e-8, 0.1]


def shards(tier, seed):
    rounds = {"quick": 250, "thorough": 6000}[tier]
    return [dict(name="compute", lo=0, hi=len(ORACLE) * rounds, split=4),
            dict(name="refuse", lo=0, hi=len(METHODS) * max(3, rounds // 10), split=2, refuse=True),
            dict(name="constants", lo=0, hi=1, split=1, constants=True)]


def setup(ctx, shard):
    global simd, oracle, blocks, flags
    from pyfastutil.unsafe import SIMD, SIMDLowAVX512
    flags = SIMD().isAVX512Supported()
    simd = SIMDLowAVX512()
    oracle = ctypes.CDLL(build.build_native("avx512oracle", ["avx512_oracle.c"], flags=["-O2"] + build.SIMD_FLAGS))
    blocks = [Guarded(4096) for _ in range(9)]


def vector(rng, kind, size):
    how = rng.random()
    if kind.endswith("d"):
        if how < 0.2:
            return rng.randbytes(size)
        return b"".join(struct.pack("<d", rng.choice(DOUBLES) if rng.random() < 0.5 else rng.uniform(-1e3, 1e3))
                        for _ in range(size // 8))
    if kind.endswith("i"):
        if how < 0.25:
            return rng.randbytes(size)
        width = rng.choice([1, 2, 4, 8])
        out = b""
        for _ in range(size // width):
            b = 8 * width
            v = rng.choice([0, -1, 1, 1 << b - 1, (1 << b - 1) - 1, rng.randrange(64), rng.getrandbits(b),
                            1 << rng.randrange(b), rng.choice([-2, 255, 256, 127, 128, 32, 31, 33, 65])])
            out += (v % (1 << b)).to_bytes(width, "little")
        return out
    if how < 0.2:
        return rng.randbytes(size)
    out = b""
    for _ in range(size // 4):
        v = rng.choice(DOUBLES) if rng.random() < 0.5 else rng.uniform(-1e3, 1e3)
        if math.isfinite(v) and abs(v) > 3.4e38:
            v = math.copysign(math.inf, v)
        out += struct.pack("<f", v)
    return out


def scalar(rng, kind):
    """A python argument and the C object's bytes."""
    if kind in ("float", "double"):
        v = rng.choice(DOUBLES) if rng.random() < 0.6 else rng.uniform(-1e6, 1e6)
        if rng.random() < 0.2:
            v = rng.randrange(-2 ** 24, 2 ** 24)
        c = (ctypes.c_float if kind == "float" else ctypes.c_double)(v)
        return v, bytes(c)
    if kind == "_MM_PERM_ENUM":
        v = rng.randrange(256)
        return v, v.to_bytes(4, "little")
    size, signed = INTS[kind]
    bits = 8 * size
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    v = rng.choice([rng.randint(lo, hi), rng.randint(lo, hi), lo, hi, 0, 1, -1 if signed else hi - 1,
                    rng.randrange(min(64, hi)), rng.randrange(min(64, hi))])
    return v, v.to_bytes(size, "little", signed=signed)


def comparable(method, kind):
    """How many low bytes of the result are defined."""
    size = SIZES[kind]
    if "undefined" in method:
        return 0
    if "cast" in method and "zext" not in method:
        for name, n in (("128_", 16), ("256_", 32)):
            if name in method and size > n:
                return n
    return size


def same(kind, a, b):
    if a == b:
        return True
    code = {"__m512d": "d", "__m256d": "d", "__m128d": "d", "double": "d",
            "__m512": "f", "__m256": "f", "__m128": "f", "float": "f"}.get(kind)
    if code is None or len(a) % struct.calcsize(code):
        return False
    w = struct.calcsize(code)
    for i in range(0, len(a), w):
        if a[i:i + w] != b[i:i + w]:
            x, y = struct.unpack(code, a[i:i + w])[0], struct.unpack(code, b[i:i + w])[0]
            if not (math.isnan(x) and math.isnan(y)):
                return False
    return True


FILL = bytes(range(7, 251)) * 17


def operands(ctx, rng, spec):
    """Fills the blocks; returns python arguments, oracle argument addresses, result address and touched slots."""
    args, cells, slots = [], [], []
    memory = iter(blocks[1:])
    shared = None
    scalars = ctypes.create_string_buffer(16 * max(1, len(spec["types"])))
    previous = None
    for i, kind in enumerate(spec["types"]):
        bare = kind.replace("const ", "").strip()
        if "*" in kind:
            block = next(memory)
            address = rng.choice([block.start, block.end - 64, block.start + 64 * rng.randrange(1, 63)])
            data = vector(rng, rng.choice(["__m512i", "__m512d", "__m512"]), 64)
            block.put(address, struct.pack("<Q", address) + data[8:])
            args.append(address)
            cells.append(address)
            slots.append((block, address, None))
        elif bare in SIZES and bare.startswith("__m"):
            block = next(memory)
            size = SIZES[bare]
            address = rng.choice([block.start, block.end - 64, block.start + 64 * rng.randrange(1, 63)])
            if "mask" in bare:
                data = rng.choice([bytes(size), b"\xff" * size, rng.randbytes(size), rng.randbytes(size)])
            elif previous is not None and len(previous) == size and rng.random() < 0.2:
                data = bytearray(previous)
                if rng.random() < 0.5:
                    data[rng.randrange(size)] ^= 1 << rng.randrange(8)
                data = bytes(data)
            else:
                data = vector(rng, bare, size)
                previous = data
            block.put(address, data)
            args.append(address)
            cells.append(address)
            slots.append((block, address, bare))
        else:
            value, data = scalar(rng, bare)
            ctypes.memmove(ctypes.addressof(scalars) + 16 * i, data, len(data))
            args.append(value)
            cells.append(ctypes.addressof(scalars) + 16 * i)
    return args, cells, slots, scalars


def snapshot():
    return [b.get(b.start, b.size) for b in blocks]


def restore(state):
    for b, data in zip(blocks, state):
        b.put(b.start, data)


def constants(ctx):
    """The operand constants against the C headers' naming rules (_MM_PERM_DCBA: two bits for each letter)."""
    from pyfastutil import unsafe
    letters = "ABCD"
    expected = {"MM_PERM_ENUM": {a + b + c + d: letters.index(a) << 6 | letters.index(b) << 4 | letters.index(c) << 2 |
                                 letters.index(d) for a in letters for b in letters for c in letters for d in letters},
                "MM_MANTISSA_NORM_ENUM": {"NORM_1_2": 0, "NORM_p5_2": 1, "NORM_p5_1": 2, "NORM_p75_1p5": 3},
                "MM_MANTISSA_SIGN_ENUM": {"src": 0, "zero": 1, "nan": 2}}
    for enum, members in expected.items():
        for name, value in members.items():
            ctx.mark(enum + "." + name)
            got = getattr(getattr(unsafe, enum), name)
            if got != value or int(got) != value:
                raise Violation("avx512-constant", "%s.%s is %r, in C %d" % (enum, name, got, value))
            ctx.count("constants compared")
            ctx.distinct(enum, name)


def run_case(ctx, shard, case):
    if shard.get("constants"):
        return constants(ctx)
    if not flags:
        ctx.count("skipped: no AVX-512 on this machine")
        return
    if shard.get("refuse"):
        return refuse(ctx, case)
    rng = ctx.rng
    method = ORACLE[case % len(ORACLE)]
    spec = TABLE[method]
    fill = FILL[rng.randrange(50):][:4096].ljust(4096, b"\x5a")
    for b in blocks:
        b.put(b.start, fill)
    args, cells, slots, keep = operands(ctx, rng, spec)
    kind = spec["result"]
    result_block = blocks[0]
    result = rng.choice([result_block.start, result_block.end - 64, result_block.start + 64 * rng.randrange(1, 63)])
    what = "%s(%s)" % (method, ", ".join(
        [b.get(a, SIZES[t] if t else 64).hex() for b, a, t in slots] + [repr(a) for a, t in zip(args, spec["types"])
                                                                        if not ("*" in t or t.startswith("__m"))]))
    ctx.mark("%s" % what[:900])
    before = snapshot()
    call = getattr(oracle, "o_" + method)
    pointers = (ctypes.c_void_p * max(1, len(cells)))(*cells)
    call(ctypes.c_void_p(result), pointers)
    want = snapshot()
    restore(before)
    where = result
    size = SIZES[kind]
    if kind != "void":
        value = want[0][result - result_block.start:][:size]
        candidates = [(b, a) for b, a, t in slots if t is not None and SIZES[t] >= size]
        if candidates and rng.random() < 0.25:  # the result replaces an operand
            block, where = rng.choice(candidates)
            index = blocks.index(block)
            want[0] = before[0]
            o = where - block.start
            want[index] = want[index][:o] + value + want[index][o + size:]
            ctx.count("result in an operand's place")
        python_args = [where] + args
    else:
        python_args = args
    returned = getattr(simd, method)(*python_args)
    got = snapshot()
    if returned is not None:
        raise Violation("avx512-return", "%s returned %r" % (method, returned))
    defined = comparable(method, kind)
    for i, (block, g, w) in enumerate(zip(blocks, got, want)):
        if g == w:
            continue
        lo, hi = where - block.start, where - block.start + size
        if block.start <= where < block.end and size:
            if g[:lo] == w[:lo] and g[hi:] == w[hi:] and \
                    (same(kind, g[lo:lo + defined], w[lo:lo + defined])):
                continue
            if g[:lo] == w[:lo] and g[hi:] == w[hi:]:
                raise Violation("avx512-" + method, "%s stored %s, the intrinsic gives %s" % (
                    what, g[lo:hi].hex(), w[lo:hi].hex()))
        first = next(k for k in range(len(g)) if g[k] != w[k])
        raise Violation("avx512-memory-" + method, "%s: byte %d of block %d (%s) is %02x, expected %02x" % (
            what, first, i, "result" if i == 0 else "operand", g[first], w[first]))
    ctx.count("intrinsic results compared")
    ctx.distinct(method, what)
    ctx.sample("%s" % what[:300])


def refuse(ctx, case):
    rng = ctx.rng
    method = METHODS[case % len(METHODS)]
    spec = TABLE[method]
    args, cells, slots, keep = operands_plain(rng, spec)
    right = len(args)
    count = right
    if spec["oracle"] or rng.random() < 0.3:
        while count == right:
            count = rng.choice([0, right - 1, right + 1, right + 2, rng.randrange(0, 70)])
            count = max(0, count)
    args = (args + [blocks[0].start] * 80)[:count]
    what = "%s with %d of %d arguments" % (method, count, right)
    ctx.mark(what)
    before = snapshot()
    raised = None
    try:
        returned = getattr(simd, method)(*args)
    except (TypeError, NotImplementedError) as e:
        raised = e
    if snapshot() != before:
        raise Violation("avx512-refused-wrote", "%s raised %r and changed memory" % (what, raised))
    if raised is None:
        raise Violation("avx512-accepted", "%s returned %r" % (what, returned))
    expected = NotImplementedError if count == right else TypeError
    if not isinstance(raised, expected) and (spec["oracle"] or not isinstance(raised, NotImplementedError)):
        raise Violation("avx512-refused-kind", "%s raised %r" % (what, raised))
    ctx.count("refused with " + type(raised).__name__)
    ctx.distinct("refuse", method, count)


def operands_plain(rng, spec):
    args = [] if spec["result"] == "void" else [blocks[0].start]
    memory = iter(blocks[1:])
    for kind in spec["types"]:
        bare = kind.replace("const ", "").strip()
        if "*" in kind or bare.startswith("__m"):
            b = next(memory)
            b.put(b.start, struct.pack("<Q", b.start))
            args.append(b.start)
        elif bare in ("float", "double"):
            args.append(1.5)
        else:
            args.append(rng.choice([0, 1, 2, 3, 4]))
    return args, None, None, None
