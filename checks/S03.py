"""S03: the same results on every vector instruction level, and flags that tell the truth."""
import random

from lib import simdapi
from lib.lists import BIG_SIZES, BOUNDARY_SIZES, I32, KINDS, diff, same_items
from lib.monitor import Violation

# processors and systems that exist, as masks on what cpuid leaf 1 ECX, leaf 7 EBX and XCR0 report here
SSSE3, SSE41, XSAVE, OSXSAVE, AVX = 1 << 9, 1 << 19, 1 << 26, 1 << 27, 1 << 28
AVX2, AVX512 = 1 << 5, 0xdc230000  # every AVX-512 feature bit of leaf 7 EBX
NO_AVX = XSAVE | OSXSAVE | AVX


def _env(ecx=0, ebx=0, xcr0=0):
    return {"VERIF_CPU_ECX1": "%x" % (~ecx & 0xffffffff), "VERIF_CPU_EBX7": "%x" % (~ebx & 0xffffffff),
            "VERIF_CPU_XCR0": "%x" % (~xcr0 & 0xffffffff)}


LEVELS = {
    "none": _env(SSSE3 | SSE41 | NO_AVX, AVX2 | AVX512),
    "ssse3": _env(SSE41 | NO_AVX, AVX2 | AVX512),
    "sse41": _env(NO_AVX, AVX2 | AVX512),
    "avx2": _env(0, AVX512),
}
# what those and more report; (SSE4.1, SSSE3, AVX2, AVX-512) expected where this processor has all of them
SYSTEMS = {
    "none": (LEVELS["none"], (False, False, False, False)),
    "ssse3": (LEVELS["ssse3"], (False, True, False, False)),
    "sse41": (LEVELS["sse41"], (True, True, False, False)),
    "avx": (_env(0, AVX2 | AVX512), (True, True, False, False)),
    "avx2": (LEVELS["avx2"], (True, True, True, False)),
    "avx2-os-without-avx": (_env(0, AVX512, 0x4), (True, True, False, False)),
    "avx512-os-without-avx": (_env(0, 0, 0xe4), (True, True, False, False)),
    "avx512-os-without-opmask": (_env(0, 0, 0x20), (True, True, True, False)),
    "avx512-os-without-zmm": (_env(0, 0, 0xe0), (True, True, True, False)),
    "avx512-os-without-hi16": (_env(0, 0, 0x80), (True, True, True, False)),
    "avx512-os-without-upper": (_env(0, 0, 0x40), (True, True, True, False)),
    "no-xsave": (_env(XSAVE | OSXSAVE | AVX), (True, True, False, False)),
    "os-without-xsave": (_env(OSXSAVE), (True, True, False, False)),
    "native": ({}, (True, True, True, True)),
}

RULE = ("A case is one fixed pseudo-random input (the same on every level) put through one operation that has vector "
        "code (sort, reverse, repetition, copy, extension, conversion to list, from_range, comparison, search, SIMD "
        "copy and reverse), run on simulated processors without SSE, with SSSE3, SSE4.1, AVX2 and AVX-512, compared "
        "with the built-in result, so all levels agree; flags-* cases import the module on 14 simulated processor and "
        "system combinations, and on the real one, and compare the reported support flags. distinct_nontrivial counts "
        "distinct (level, operation, size, first elements).")
ASSUMPTIONS = ["levels above the machine's own cannot be run", "ARM NEON is not reachable on this machine"]


def shards(tier, seed):
    n = {"quick": 9000, "thorough": 80000}[tier]
    r = [dict(name="native", lo=0, hi=n, split=4, ops=True), dict(name="flags-real", lo=0, hi=1, flags=True)]
    for level, env in LEVELS.items():
        r.append(dict(name="level-" + level, level=level, variant="level", env=env, lo=0, hi=n, split=4, ops=True))
    for system, (env, expected) in SYSTEMS.items():
        r.append(dict(name="flags-" + system, variant="level", env=env, lo=0, hi=1, flags=True, system=system))
    return r


def setup(ctx, shard):
    global SIMD
    from pyfastutil.unsafe import SIMD as S
    SIMD = S()


def flags_of(simd):
    return (simd.isSSE41Supported(), simd.isSSSE3Supported(), simd.isAVX2Supported(), simd.isAVX512Supported())


def real_flags():
    try:
        words = set()
        for line in open("/proc/cpuinfo"):
            if line.startswith("flags"):
                words = set(line.split(":", 1)[1].split())
                break
    except OSError:
        return None
    if not words:
        return None
    return ("sse4_1" in words, "ssse3" in words, "avx2" in words, "avx512f" in words)


def flags_case(ctx, shard):
    flags = flags_of(SIMD)
    real = real_flags()
    if any(type(f) is not bool for f in flags) or SIMD.isArmNeonSupported() is not False:
        raise Violation("flags", "flags %r, NEON %r" % (flags, SIMD.isArmNeonSupported()))
    if real is None:
        ctx.count("the kernel lists no processor flags")
        return
    if "system" not in shard:
        expected, name = real, "this machine"
    else:
        import ctypes
        import pyfastutil
        import glob
        import os
        lib = ctypes.CDLL(glob.glob(os.path.join(os.path.dirname(pyfastutil.__file__), "__pyfastutil*.so"))[0])
        if not ctypes.c_int.in_dll(lib, "verif_cpuid_calls").value:
            ctx.count("detection not reachable by the simulated processor")
            return
        name = shard["system"]
        expected = tuple(a and b for a, b in zip(real, SYSTEMS[name][1]))
    if flags != expected:
        raise Violation("flags-" + shard["name"], "(SSE4.1, SSSE3, AVX2, AVX-512) reported as %r on %s, which has %r" % (
            flags, name, expected))
    ctx.count("processor and system combinations checked")
    ctx.distinct("flags", name, flags)
    ctx.sample("flags on %s: %r" % (name, flags))


def run_case(ctx, shard, case):
    if shard.get("flags"):
        return flags_case(ctx, shard)
    rng = random.Random("S03/%s/%s" % (ctx.seed, case))  # the same on every level
    if case % 4 == 0:
        name = rng.choice(simdapi.NAMES)
        count = rng.choice([rng.randrange(0, 150), rng.choice(BOUNDARY_SIZES), rng.randrange(3000)])
        if rng.random() < 0.5:
            what, op = simdapi.copy_case(ctx, rng, SIMD, name, rng.random() < 0.5, count, rng.choice(["start", "end"]))
        else:
            what, op = simdapi.reverse_case(ctx, rng, SIMD, name, count, rng.choice(["start", "end"]))
        ctx.distinct(shard["name"], op, count, what)
        return
    kind = KINDS[rng.choice(["IntArrayList", "BigIntArrayList", "IntArrayList", "BigIntArrayList", "IntLinkedList",
                             "ObjectArrayList", "ObjectLinkedList"])]
    n = rng.choice([rng.randrange(0, 140), rng.choice(BOUNDARY_SIZES + BIG_SIZES), rng.randrange(2500)])
    if rng.random() < 0.06:
        n = rng.choice([4999, 5000, 5001, 5002, 6000, 8191, 8192, 8193, 20000, 65535, 65537, 70001])
    lo, hi = kind.bounds or I32
    span = rng.choice([(lo, hi), (-5, 5), (0, 1), (lo, lo + 3), (hi - 3, hi)])
    data = [rng.randint(*span) for _ in range(n)]
    subject, model = kind.cls(data), list(data)
    op = rng.choice(["sort", "sort", "rsort", "keysort", "reverse", "mul", "imul", "copy", "extend", "extendlist",
                     "slice", "reversed", "insert", "range", "search", "compare"])
    what = "%s of %d elements on level %s" % (op, n, shard["name"])
    ctx.mark("%s %s" % (kind, what))
    result = want = None
    if op == "sort":
        subject.sort()
        model.sort()
    elif op == "rsort":
        subject.sort(reverse=True)
        model.sort(reverse=True)
    elif op == "keysort":
        subject.sort(key=lambda v: v % 7)
        model.sort(key=lambda v: v % 7)
    elif op == "reverse":
        subject.reverse()
        model.reverse()
    elif op == "mul":
        k = rng.choice([0, 1, 2, 3, 7, 16])
        subject, model = subject * k, model * k
    elif op == "imul":
        k = rng.choice([0, 1, 2, 3, 7, 16])
        subject *= k
        model *= k
    elif op == "copy":
        subject = subject.copy()
    elif op == "extend":
        subject.extend(kind.cls(data))
        model.extend(data)
    elif op == "extendlist":
        subject.extend(data)
        model.extend(data)
    elif op == "slice":
        i, j = rng.randrange(n + 1), rng.randrange(n + 1)
        result, want = subject[i:j], model[i:j]
    elif op == "reversed":
        result, want = list(reversed(subject)), model[::-1]
    elif op == "insert":
        i = rng.randrange(n + 1)
        subject.insert(i, 7)
        model.insert(i, 7)
    elif op == "range" and hasattr(kind.cls, "from_range"):
        a, st = rng.randrange(-1000, 1000), rng.choice([1, 2, -1, -3, 17])
        subject, model = kind.cls.from_range(a, a + st * n, st), list(range(a, a + st * n, st))
    elif op == "search" and data:
        v = rng.choice(data + [hi])
        result = [v in subject, subject.count(v), subject.index(data[-1])]
        want = [v in model, model.count(v), model.index(data[-1])]
    elif op == "compare":
        other = data[:]
        if other and rng.random() < 0.7:
            other[rng.randrange(n)] += 1 if span[1] < hi else -1
        other = [min(max(v, lo), hi) for v in other]
        o = kind.cls(other)
        result = [subject == o, subject != o, subject < o, subject <= o, subject > o, subject >= o]
        want = [data == other, data != other, data < other, data <= other, data > other, data >= other]
    got = subject.to_list()
    if got != model or len(subject) != len(model) or result != want:
        raise Violation("level-%s-%s" % (kind, op), "%s %s: %s" % (kind, what, diff(got, model) if got != model else
                                                                  "%r instead of %r" % (result, want)))
    if kind.is_int and not same_items(kind, got, model):
        raise Violation("level-%s-%s-type" % (kind, op), what)
    ctx.count("operations compared on " + shard["name"])
    if n:
        ctx.distinct(shard["name"], kind.name, op, n, tuple(data[:4]))
    ctx.sample("%s %s" % (kind, what))
