"""What a check's cases use: verdicts, progress that survives a crash, evidence counters."""
import hashlib
import json
import mmap
import os

PROGRESS_SIZE = 4096


class Violation(Exception):
    """kind: short stable key of what failed, detail: what was observed."""

    def __init__(self, kind, detail=""):
        super().__init__("%s: %s" % (kind, detail))
        self.kind = kind
        self.detail = detail


class Ctx:
    def __init__(self, prop, shard, progress, result):
        self.prop = prop
        self.shard = shard
        self.seed = shard["seed"]
        self.tier = shard["tier"]
        self.stats = {}
        self.signatures = set()
        self.samples = []
        self.case = None
        self.rng = None
        self._out = open(result, "a")
        fd = os.open(progress, os.O_RDWR | os.O_CREAT)
        os.ftruncate(fd, PROGRESS_SIZE)
        self._map = mmap.mmap(fd, PROGRESS_SIZE)
        os.close(fd)
        self._beat = 0

    # -- progress, survives a crash ------------------------------------------------------------
    def mark(self, note=""):
        self._beat += 1
        text = json.dumps([self._beat, self.case, str(note)[:1500]]).encode()[:PROGRESS_SIZE - 1]
        self._map[:len(text) + 1] = text + b"\0"

    # -- evidence ------------------------------------------------------------------------------
    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def maximum(self, name, value):
        name = "max:" + name
        if value > self.stats.get(name, 0):
            self.stats[name] = value

    def distinct(self, *parts):
        """Counts a distinct, non-trivial case (by the check's rule)."""
        if len(self.signatures) < 400000:
            self.signatures.add(hashlib.blake2b(repr(parts).encode("utf8", "replace"), digest_size=6).hexdigest())

    def sample(self, text, limit=2):
        if len(self.samples) < limit:
            self.samples.append(str(text)[:600])

    # -- verdicts ------------------------------------------------------------------------------
    def emit(self, record):
        self._out.write(json.dumps(record) + "\n")
        self._out.flush()
        os.fsync(self._out.fileno())

    def violation(self, kind, detail):
        self.emit({"t": "violation", "case": self.case, "kind": kind, "detail": str(detail)[:6000]})

    def finish(self, done):
        self.emit({"t": "end", "done": done, "stats": self.stats, "signatures": sorted(self.signatures),
                   "samples": self.samples})
