"""U03: fputs, fflush and fgets against a byte-exact model of the two streams."""
import ctypes
import gc
import json
import os
import signal
import sys
import time

from lib.monitor import Violation

RULE = ("A case is one forked process with its own standard input (file or pipe, fed at once or in pieces) and output (file "
        "or pipe) that runs a random program of fputs, fflush and fgets calls, malformed ones included. The values returned, "
        "the exceptions, the bytes that have arrived after every fflush and at the end, and what a later read still finds "
        "are compared with a model of the two byte streams. Leak cases repeat a call 1000 times. distinct_nontrivial counts "
        "distinct (call, text shape, buffer size, position) steps compared.")
ASSUMPTIONS = ["standard input holds valid UTF-8; write errors of the output are not injected",
               "a buffer too small for the next character has to raise and leave the character there"]
CHARS = ["a", "b", "z", " ", "\t", "\r", "\0", "\x7f", "\u00e9", "\u00df", "\u07ff", "\u0800", "\u4e2d", "\uffff", "\ufeff",
         "\U00010000", "\U0001f600", "\U0010ffff", "\u2028", "\x85", "\x1a", "\x04", "\x0b", "\x0c"]


def shards(tier, seed):
    n = {"quick": 4000, "thorough": 120000}[tier]
    return [dict(name="streams", lo=0, hi=n, split=6, mode="streams"),
            dict(name="asan-streams", variant="asan", lo=0, hi=n // 8, split=2, mode="streams"),
            dict(name="leaks", lo=0, hi=len(LEAKS) * 2, split=2, mode="leak")]


def setup(ctx, shard):
    global unsafe
    from pyfastutil.unsafe import Unsafe
    unsafe = Unsafe()


class Text(str):
    pass


def text(rng, n):
    mode = rng.randrange(4)
    if mode == 0:
        return "".join(rng.choice("abcxyz ") for _ in range(n))
    if mode == 1:
        return "".join(rng.choice(CHARS) for _ in range(n))
    if mode == 2:
        return rng.choice(CHARS) * n
    return "".join(rng.choice(CHARS) if rng.random() < 0.1 else "q" for _ in range(n))


def length(rng):
    r = rng.random()
    if r < 0.6:
        return rng.randrange(0, 20)
    if r < 0.8:
        return rng.randrange(0, 200)
    if r < 0.975:
        return rng.choice([255, 256, 257, 511, 512, 513, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 4093, 4094, 4095, 4096, 4097,
                           4098, 8191, 8192, 8193])
    if r < 0.985:
        return rng.choice([32767, 32768, 65534, 65535, 65536, 65537, 131072, 140000])
    return rng.randrange(200, 70000)


def program(rng):
    """Input bytes and the calls to make."""
    lines = []
    for _ in range(rng.choice([0, 1, 2, 5, 20])):
        lines.append(text(rng, length(rng)))
    data = "\n".join(lines)
    if rng.random() < 0.6:
        data += "\n"
    raw = data.encode("utf-8")
    longest = max([len(l.encode()) for l in lines] + [0])
    ops = []
    style = rng.choice(["small", "fit", "mixed", "mixed"])
    left = len(raw) + 40
    while len(ops) < 400 and (left > 0 or rng.random() < 0.8):
        r = rng.random()
        if r < 0.55:
            n = {"small": rng.choice([2, 3, 4, 5, 5, 6, 8, 9, 16]), "fit": longest + rng.choice([2, 2, 3, 10]),
                 "mixed": rng.choice([2, 3, 5, 6, 17, 64, 100, 255, 256, 1000, 1024, 1025, 4096, 4097, longest + 2, 1, 70000, 65536, 65537, 200000,
                                      rng.randrange(2, max(3, longest + 3))])}[style]
            ops.append(("fgets", n))
            left -= n
        elif r < 0.75:
            n = length(rng) if rng.random() < 0.5 else rng.randrange(30)
            s = text(rng, n)
            if rng.random() < 0.3:
                s += "\n"
            ops.append(("fputs-sub" if rng.random() < 0.1 else "fputs", s))
        elif r < 0.87:
            ops.append(("fflush", None))
        else:
            ops.append(("bad", rng.choice(["fgets-0", "fgets-neg", "fgets-big", "fgets-huge", "fgets-str", "fgets-float",
                                           "fgets-none", "fgets-none-given", "fputs-int", "fputs-none", "fputs-bytes",
                                           "fputs-surrogate", "fputs-surrogate-end", "fputs-missing", "fputs-two",
                                           "fflush-arg"])))
    for _ in range(rng.choice([0, 1, 3, 30])):
        ops.append(("fgets", rng.choice([2, 5, 100, 5000])))
    return raw, ops


BAD = {"fgets-0": lambda u: u.fgets(0), "fgets-neg": lambda u: u.fgets(-7), "fgets-big": lambda u: u.fgets(1 << 40),
       "fgets-huge": lambda u: u.fgets(1 << 80), "fgets-str": lambda u: u.fgets("10"), "fgets-float": lambda u: u.fgets(10.0),
       "fgets-none": lambda u: u.fgets(), "fgets-none-given": lambda u: u.fgets(None), "fputs-int": lambda u: u.fputs(5),
       "fputs-none": lambda u: u.fputs(None), "fputs-bytes": lambda u: u.fputs(b"bytes"),
       "fputs-surrogate": lambda u: u.fputs("ab\ud800cd"), "fputs-surrogate-end": lambda u: u.fputs("x" * 500 + "\udfff"),
       "fputs-missing": lambda u: u.fputs(), "fputs-two": lambda u: u.fputs("a", "b"), "fflush-arg": lambda u: u.fflush(1)}


def child(ops, report, out_is_file):
    """Runs the calls; writes one record for each."""
    log = []
    for i, (name, arg) in enumerate(ops):
        report.seek(0)
        report.write("%-10d" % i)
        report.flush()
        record = {}
        try:
            if name == "fgets":
                r = unsafe.fgets(arg)
                record["type"] = type(r).__name__
                record["value"] = r
            elif name == "fputs" or name == "fputs-sub":
                record["value"] = unsafe.fputs(arg if name == "fputs" else Text(arg))
            elif name == "fflush":
                record["value"] = unsafe.fflush()
                if out_is_file:
                    record["size"] = os.fstat(1).st_size
            else:
                record["value"] = repr(BAD[arg](unsafe))
        except Exception as e:
            record["raised"] = type(e).__name__
            record["bases"] = [c.__name__ for c in type(e).__mro__]
        log.append(record)
    unsafe.fflush()
    report.seek(0)
    report.write("%-10d" % len(ops) + json.dumps(log))
    report.flush()


def run_process(ops, raw, stdin_kind, stdout_kind, rng):
    """Returns (status, progress, log or None, bytes written, bytes of input left in the descriptor)."""
    report_fd = os.memfd_create("report")
    if stdin_kind == "file":
        in_read = os.memfd_create("in")
        os.write(in_read, raw) if raw else None
        os.lseek(in_read, 0, 0)
        in_write = None
    else:
        in_read, in_write = os.pipe()
    if stdout_kind == "file":
        out_write = os.memfd_create("out")
        out_read = None
    else:
        out_read, out_write = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.dup2(in_read, 0)
            os.dup2(out_write, 1)
            for fd in (in_read, in_write, out_read, out_write):
                if fd is not None:
                    os.close(fd)
            signal.alarm(30)
            child(ops, open(report_fd, "w"), stdout_kind == "file")
            code = 0
        except BaseException as e:
            os.write(2, ("harness: %r" % e).encode())
        finally:
            os._exit(code)
    if in_write is not None:
        os.close(in_read)
        view = memoryview(raw)
        try:
            if stdin_kind == "pieces":
                while view:
                    n = rng.choice([1, 2, 3, 7, 100, 1000, 5000, 60000])
                    os.write(in_write, view[:n])
                    view = view[n:]
                    if rng.random() < 0.05:
                        time.sleep(0.0005)
            while view:
                view = view[os.write(in_write, view[:60000]):]
        except BrokenPipeError:
            pass
        os.close(in_write)
    out = b""
    if out_read is not None:
        os.close(out_write)
        while True:
            piece = os.read(out_read, 1 << 16)
            if not piece:
                break
            out += piece
        os.close(out_read)
    _, status = os.waitpid(pid, 0)
    if out_read is None:
        os.lseek(out_write, 0, 0)
        with os.fdopen(out_write, "rb") as f:
            out = f.read()
    if in_write is None:
        os.close(in_read)
    with os.fdopen(report_fd, "rb") as f:
        f.seek(0)
        text = f.read().decode("ascii", "replace")
    progress = int(text[:10] or 0)
    log = json.loads(text[10:]) if len(text) > 10 else None
    return status, progress, log, out


def short(v):
    if isinstance(v, str):
        b = v.encode("utf-8", "surrogatepass")
        return repr(v) if len(v) < 60 else "%r...(%d bytes)...%r" % (v[:25], len(b), v[-25:])
    return repr(v)


def streams(ctx, rng):
    raw, ops = program(rng)
    stdin_kind = rng.choice(["file", "pipe", "pieces"])
    total = sum(len(a.encode()) for n, a in ops if n.startswith("fputs"))
    stdout_kind = rng.choice(["file", "file", "pipe"])
    if stdout_kind == "pipe" and (total > 50000 or len(raw) > 50000):
        stdout_kind = "file"
    what = "input of %d bytes by %s, output to a %s, %d calls" % (len(raw), stdin_kind, stdout_kind, len(ops))
    ctx.mark(what)
    status, progress, log, out = run_process(ops, raw, stdin_kind, stdout_kind, rng)

    def bad(kind, i, why):
        shown = "\n    ".join("%s(%s)%s" % (n, short(a), "" if log is None else " -> " + short(
            (log[j].get("raised") or log[j].get("value")))) for j, (n, a) in list(enumerate(ops))[max(0, i - 12):i + 1])
        raise Violation(kind, "%s\n%s\ninput: %r...\ncalls up to it:\n    %s" % (why, what, raw[:200], shown))

    if status != 0:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM:
            bad("hang-" + ops[min(progress, len(ops) - 1)][0], progress, "the call did not return for 30 s")
        bad("crash-" + ops[min(progress, len(ops) - 1)][0], progress, "the process ended with status %d" % status)
    position = 0
    written = b""
    for i, ((name, arg), record) in enumerate(zip(ops, log)):
        if name == "fgets":
            chunk = raw[position:position + arg - 1]
            cut = chunk.find(b"\n")
            if cut >= 0:
                chunk = chunk[:cut + 1]
            keep = chunk
            if position + len(chunk) < len(raw) and keep:
                while keep:
                    try:
                        keep.decode()
                        break
                    except UnicodeDecodeError:
                        keep = keep[:-1]
            if chunk and not keep:
                if record.get("raised") is None:
                    bad("fgets-small", i, "fgets(%d) returned %s where the next character does not fit" % (
                        arg, short(record["value"])))
                ctx.count("characters that did not fit")
            else:
                if "raised" in record:
                    bad("fgets-raised", i, "fgets(%d) raised %s instead of returning %s (input position %d)" % (
                        arg, record["raised"], short(keep.decode()), position))
                if record["type"] != "str" or record["value"] != keep.decode():
                    bad("fgets", i, "fgets(%d) returned %s instead of %s (input position %d of %d)" % (
                        arg, short(record["value"]), short(keep.decode()), position, len(raw)))
                position += len(keep)
                ctx.count("end of input" if not keep and arg > 1 else "lines or parts read")
            ctx.distinct("fgets", arg, len(keep), position, keep[:8])
        elif name.startswith("fputs"):
            if "raised" in record or record["value"] is not None:
                bad("fputs-result", i, "fputs ended with %r" % record)
            written += arg.encode()
            ctx.count("texts written")
            ctx.distinct("fputs", len(arg), len(written), arg[:8])
        elif name == "fflush":
            if "raised" in record or record["value"] is not None:
                bad("fflush-result", i, "fflush ended with %r" % record)
            if "size" in record:
                if record["size"] != len(written):
                    bad("fflush", i, "%d bytes had arrived when fflush returned, %d were written" % (
                        record["size"], len(written)))
                ctx.count("flushes compared")
        else:
            if "raised" not in record:
                bad("accepted-" + arg, i, "%s returned %s" % (arg, record["value"]))
            if record["raised"] == "SystemError":
                bad("systemerror-" + arg, i, "%s raised SystemError" % arg)
            ctx.count("malformed calls refused")
    if out != written:
        k = next((k for k in range(min(len(out), len(written))) if out[k] != written[k]), min(len(out), len(written)))
        bad("output", len(ops) - 1, "the output has %d bytes, %d were written; first difference at %d: %r instead of %r" % (
            len(out), len(written), k, out[k:k + 30], written[k:k + 30]))
    ctx.count("bytes read", position)
    ctx.count("bytes written", len(written))
    ctx.maximum("input bytes", len(raw))
    ctx.sample(what)


LEAKS = [("fgets-eof", b"", lambda u: u.fgets(100)), ("fgets-eof-big", b"", lambda u: u.fgets(50000)),
         ("fgets-lines", b"some line of text\n" * 3000, lambda u: u.fgets(4096)),
         ("fgets-lines-wide", "\u4e2d\u6587\U0001f600 wide\n".encode() * 3000, lambda u: u.fgets(4096)),
         ("fgets-parts", "\u00e9".encode() * 9000, lambda u: u.fgets(4)),
         ("fgets-small", "\U0001f600".encode() * 3, lambda u: u.fgets(3)),
         ("fgets-zero", b"x", lambda u: u.fgets(0)), ("fgets-type", b"x", lambda u: u.fgets("x")),
         ("fputs", b"", lambda u: u.fputs("text \u4e2d\U0001f600")), ("fputs-fresh", b"", lambda u: u.fputs("%s\u4e2d" % id(u))),
         ("fputs-type", b"", lambda u: u.fputs(5)), ("fputs-surrogate", b"", lambda u: u.fputs("\ud800")),
         ("fflush", b"", lambda u: u.fflush())]


class MallInfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks",
                                               "uordblks", "fordblks", "keepcost")]


def c_memory():
    f = ctypes.CDLL(None).mallinfo2
    f.restype = MallInfo
    m = f()
    return m.uordblks + m.hblkhd


def leak(ctx, case):
    name, raw, call = LEAKS[case % len(LEAKS)]
    ctx.mark("leak " + name)
    r, w = os.pipe()
    source = os.memfd_create("in")
    os.write(source, raw) if raw else None
    os.lseek(source, 0, 0)
    sink = os.memfd_create("out")
    pid = os.fork()
    if pid == 0:
        try:
            os.dup2(source, 0)
            os.dup2(sink, 1)
            signal.alarm(60)

            def run(n):
                for _ in range(n):
                    try:
                        call(unsafe)
                    except Exception:
                        pass
            best = None
            run(60)
            for attempt in range(3):
                gc.collect()
                before = sys.getallocatedblocks(), c_memory()
                run(900)
                gc.collect()
                moved = [a - b for a, b in zip((sys.getallocatedblocks(), c_memory()), before)]
                if best is None or moved[1] < best[1]:
                    best = moved
            os.write(w, json.dumps(best).encode())
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        piece = os.read(r, 4096)
        if not piece:
            break
        data += piece
    os.close(r)
    os.close(source)
    os.close(sink)
    _, status = os.waitpid(pid, 0)
    if status or not data:
        raise Violation("leak-crash-" + name, "the process ended with status %d" % status)
    blocks, memory = json.loads(data)
    if blocks >= 300 or memory >= 900 * 8:
        raise Violation("leak-" + name, "900 calls left %d interpreter blocks and %d bytes of C memory" % (blocks, memory))
    ctx.count("calls repeated for leaks", 2700)
    ctx.distinct("leak", name)


def run_case(ctx, shard, case):
    if shard["mode"] == "leak":
        return leak(ctx, case)
    streams(ctx, ctx.rng)
