"""Builds variants of the extension from /repo's current working tree, outside /repo.

Every check calls build(variant); objects are cached by content under /verif/.build so that running all
the checks one after another compiles each file once, but nothing is ever taken from another source tree.
"""
import concurrent.futures
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "pyfastutil")
SRC = os.path.join(PKG, "src")
BUILD = os.environ.get("VERIF_BUILD_DIR", os.path.join(VERIF, ".build"))
PYTHON = "/opt/vp/venv/bin/python"
if not os.path.exists(PYTHON):
    PYTHON = sys.executable

SIMD_FLAGS = ["-mavx", "-mavx2", "-mavx512f", "-mavx512bw", "-mavx512dq", "-mavx512vl"]
COMMON = ["-DNDEBUG", "-g1", "-fPIC", "-fno-strict-overflow", "-fvisibility=hidden", "-Wno-unknown-pragmas",
          "-fno-tree-vectorize", "-w"] + SIMD_FLAGS

# the flags of the project's own build, without link time optimisation (it only costs time)
VARIANTS = {
    "plain": dict(flags=["-O3"], link=[]),
    "asan": dict(flags=["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                        "-fno-sanitize=alignment", "-fno-sanitize-recover=undefined"],
                 link=["-fsanitize=address,undefined", "-Wl,-Bsymbolic"], stub=["unsafe/SIMDLowAVX512.cpp"],
                 extra=["asan_new.cpp"]),
    "tsan": dict(flags=["-O1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
                 link=["-fsanitize=thread"], stub=["unsafe/SIMDLowAVX512.cpp"]),
    # counts the basic blocks that run (native/costs.c, preloaded, has the counter)
    "cost": dict(flags=["-O1", "-fsanitize-coverage=trace-pc"], link=[], stub=["unsafe/SIMDLowAVX512.cpp"]),
    # vector levels are read from the environment instead of from the processor
    "level": dict(flags=["-O3"], link=[],
                  replace={"utils/simd/SIMDHelper.cpp": "native/SIMDHelper_level.cpp"}),
}


class BuildError(Exception):
    pass


def _read(path):
    with open(path, "rb") as f:
        return f.read()


def python_include():
    out = subprocess.run([PYTHON, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"],
                         capture_output=True, text=True, check=True)
    return out.stdout.strip()


def _files(*exts):
    result = []
    for root, dirs, names in os.walk(SRC):
        dirs.sort()
        for name in sorted(names):
            if name.endswith(exts):
                result.append(os.path.relpath(os.path.join(root, name), SRC))
    return result


def gcc_lib(name):
    return subprocess.run(["g++", "-print-file-name=" + name], capture_output=True, text=True,
                          check=True).stdout.strip()


def build(variant="plain"):
    """Returns the directory to put on PYTHONPATH (it contains the package pyfastutil)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock-" + variant), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _build(variant)


def _build(variant):
    spec = VARIANTS[variant]
    include = python_include()
    headers = hashlib.sha256()
    for f in _files(".h", ".hpp"):
        headers.update(f.encode() + b"\0" + _read(os.path.join(SRC, f)) + b"\0")
    headers.update(repr((spec["flags"], COMMON, include)).encode())
    headers = headers.hexdigest()

    jobs = []
    objects = os.path.join(BUILD, "obj")
    os.makedirs(objects, exist_ok=True)
    for f in _files(".c", ".cpp"):
        path = os.path.join(SRC, f)
        if f in spec.get("stub", ()):
            path = os.path.join(VERIF, "native/SIMDLowAVX512_stub.cpp")
        if f in spec.get("replace", {}):
            path = os.path.join(VERIF, spec["replace"][f])
        key = hashlib.sha256(headers.encode() + f.encode() + _read(path) +
                             _read(os.path.join(SRC, f))).hexdigest()[:32]
        obj = os.path.join(objects, key + ".o")
        jobs.append((path, obj))

    for f in spec.get("extra", ()):
        path = os.path.join(VERIF, "native", f)
        jobs.append((path, os.path.join(objects, hashlib.sha256(headers.encode() + f.encode() + _read(path)).hexdigest()
                                        [:32] + ".o")))

    tag = hashlib.sha256((variant + repr(spec["link"]) + "".join(o for _, o in jobs)).encode())
    scripts = []
    for root, dirs, names in os.walk(PKG):
        if root == PKG:
            dirs[:] = [d for d in dirs if d not in ("src", "__pycache__")]
        for name in sorted(names):
            if name.endswith(".py") or name.endswith(".pyi"):
                p = os.path.join(root, name)
                scripts.append(os.path.relpath(p, PKG))
                tag.update(p.encode() + _read(p))
    out = os.path.join(BUILD, variant + "-" + tag.hexdigest()[:24])
    if os.path.exists(os.path.join(out, "ok")):
        return out

    def compile_one(job):
        path, obj = job
        if os.path.exists(obj):
            return
        is_c = path.endswith(".c")
        cmd = (["gcc", "-std=gnu17"] if is_c else ["g++", "-std=c++20"]) + COMMON + spec["flags"]
        cmd += ["-I" + SRC, "-I" + include, "-c", path, "-o", obj + ".tmp%d" % os.getpid()]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("compiling %s failed:\n%s" % (path, r.stderr[-4000:]))
        os.replace(obj + ".tmp%d" % os.getpid(), obj)

    jobs_big_first = sorted(jobs, key=lambda j: -os.path.getsize(j[0]))
    with concurrent.futures.ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as pool:
        list(pool.map(compile_one, jobs_big_first))

    tmp = out + ".tmp%d" % os.getpid()
    pkg = os.path.join(tmp, "pyfastutil")
    os.makedirs(pkg)
    for s in scripts:
        os.makedirs(os.path.dirname(os.path.join(pkg, s)), exist_ok=True)
        shutil.copyfile(os.path.join(PKG, s), os.path.join(pkg, s))
    r = subprocess.run(["g++", "-shared", "-fpermissive"] + [o for _, o in jobs] + spec["link"] +
                       ["-o", os.path.join(pkg, "__pyfastutil.so")], capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("linking failed:\n" + r.stderr[-4000:])
    with open(os.path.join(tmp, "ok"), "w") as f:
        f.write("")
    if not os.path.exists(out):
        os.rename(tmp, out)
    return out


def build_native(name, sources, flags=(), lang="c", deps=()):
    """Builds one of the framework's own helper libraries, returns its path."""
    sources = [os.path.join(VERIF, "native", s) for s in sources]
    h = hashlib.sha256(repr((name, flags, lang)).encode())
    for s in list(sources) + [os.path.join(VERIF, "native", d) for d in deps]:
        h.update(_read(s))
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "%s-%s.so" % (name, h.hexdigest()[:16]))
    if not os.path.exists(out):
        cmd = (["gcc", "-std=gnu17"] if lang == "c" else ["g++", "-std=c++20"])
        cmd += ["-shared", "-fPIC", "-w"] + list(flags) + ["-I" + python_include()] + sources
        cmd += ["-o", out + ".tmp%d" % os.getpid(), "-ldl"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("building %s failed:\n%s" % (name, r.stderr[-4000:]))
        os.replace(out + ".tmp%d" % os.getpid(), out)
    return out


def build_program(name, native, sources, flags=()):
    """Builds a program from the framework's own driver and /repo's sources (paths or directories), returns its path."""
    inputs = [os.path.join(VERIF, "native", n) for n in native]
    for s in sources:
        inputs += [os.path.join(SRC, f) for f in _files(".cpp", ".c") if f == s or f.startswith(s.rstrip("/") + "/")]
    h = hashlib.sha256(repr((name, flags)).encode())
    for f in inputs + [os.path.join(SRC, f) for f in _files(".h", ".hpp")]:
        h.update(f.encode() + b"\0" + _read(f) + b"\0")
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "%s-%s" % (name, h.hexdigest()[:24]))
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run(["g++", "-std=c++20", "-g1", "-DNDEBUG", "-w", "-pthread", *flags, "-I" + SRC, "-I" + python_include(),
                            *inputs, "-o", tmp], capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("building %s failed:\n%s" % (name, r.stderr[-4000:]))
        os.replace(tmp, out)
    return out


def env_for(variant, package_dir):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(("PYTHON", "ASAN_", "UBSAN_", "TSAN_", "LSAN_", "LD_PRELOAD", "MALLOC_"))}
    env["PYTHONPATH"] = package_dir + os.pathsep + VERIF
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONFAULTHANDLER"] = "1"
    if variant == "asan":
        env["LD_PRELOAD"] = gcc_lib("libasan.so") + " " + gcc_lib("libubsan.so") + " " + gcc_lib("libstdc++.so")
        env["PYTHONMALLOC"] = "malloc"
        env["ASAN_OPTIONS"] = ("detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:"
                               "alloc_dealloc_mismatch=1:handle_segv=1:allow_user_segv_handler=0:max_allocation_size_mb=4096:"
                               "detect_stack_use_after_return=0:quarantine_size_mb=64:hard_rss_limit_mb=3500")
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
        env.pop("PYTHONFAULTHANDLER")
    elif variant == "tsan":
        env["LD_PRELOAD"] = gcc_lib("libtsan.so") + " " + gcc_lib("libstdc++.so")
        env["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=0:report_signal_unsafe=0:history_size=4"
        env.pop("PYTHONFAULTHANDLER")
    return env


if __name__ == "__main__":
    import time
    for v in sys.argv[1:] or VARIANTS:
        t = time.time()
        print(v, build(v), "%.1fs" % (time.time() - t))
