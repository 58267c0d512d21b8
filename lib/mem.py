"""Blocks of memory between two inaccessible pages, for calls that take raw addresses."""
import ctypes
import os

PAGE = 4096
libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]


class Guarded:
    """size usable bytes (a multiple of the page size) with an unmapped page before and behind."""

    def __init__(self, size, flags=0x22):
        self.size = -(-size // PAGE) * PAGE
        base = libc.mmap(None, self.size + 2 * PAGE, 0, flags, -1, 0)  # PROT_NONE, private anonymous
        if base in (None, ctypes.c_void_p(-1).value):
            raise MemoryError("mmap")
        self.base = base
        self.start = base + PAGE
        if libc.mprotect(self.start, self.size, 3):
            raise OSError("mprotect")
        self.view = memoryview((ctypes.c_ubyte * self.size).from_address(self.start)).cast("B")

    @property
    def end(self):
        return self.start + self.size

    def readonly(self, yes=True):
        libc.mprotect(self.start, self.size, 1 if yes else 3)

    def close(self):
        self.view = None
        libc.munmap(self.base, self.size + 2 * PAGE)

    def fill(self, data):
        self.view[:len(data)] = data

    def get(self, address, n):
        o = address - self.start
        return bytes(self.view[o:o + n])

    def put(self, address, data):
        o = address - self.start
        self.view[o:o + len(data)] = data


class Tiled:
    """size bytes of addresses that all show the same few pages, between unmapped pages: vast ranges cost no memory."""

    def __init__(self, size, period=8 << 20):
        self.period = period
        self.size = -(-size // period) * period
        base = libc.mmap(None, self.size + 2 * PAGE, 0, 0x4022, -1, 0)
        if base in (None, ctypes.c_void_p(-1).value):
            raise MemoryError("mmap")
        self.base, self.start, self.end = base, base + PAGE, base + PAGE + self.size
        fd = os.memfd_create("tile")
        os.ftruncate(fd, period)
        for at in range(self.start, self.end, period):
            if libc.mmap(at, period, 3, 0x11, fd, 0) != at:  # MAP_SHARED | MAP_FIXED
                raise MemoryError("mmap")
        os.close(fd)
        self.view = memoryview((ctypes.c_ubyte * period).from_address(self.start)).cast("B")

    def close(self):
        self.view = None
        libc.munmap(self.base, self.size + 2 * PAGE)


def room(gigabytes):
    """Is that much memory free with a good margin?"""
    try:
        with open("/proc/meminfo") as f:
            fields = dict(line.split(":") for line in f)
        if int(fields["MemAvailable"].split()[0]) < (gigabytes + 8) << 20:
            return False
        with open("/sys/fs/cgroup/memory.max") as f, open("/sys/fs/cgroup/memory.current") as g:
            limit, used = f.read().strip(), int(g.read())
        return limit == "max" or int(limit) - used > (gigabytes + 8) << 30
    except (OSError, ValueError, KeyError):
        return True


def address_of(obj_buffer):
    return ctypes.addressof(ctypes.c_char.from_buffer(obj_buffer))
