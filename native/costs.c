// Preloaded into a child, and importable as the module costs: measure(function, *args) calls the function and returns
// (steps, moved, requests, bytes, largest, large, kept, result): the basic blocks of the extension that ran (it is compiled
// with -fsanitize-coverage=trace-pc), the bytes moved with memmove and memcpy, and the C allocations the thread made
// meanwhile: their number, the sum of their sizes, the largest one, how many had at least the size threshold(n) set,
// and the bytes still held at the end.
#define _GNU_SOURCE
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <stddef.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

#define OUT __attribute__((visibility("default")))
static __thread int armed;
static __thread unsigned long steps, moved, requests, bytes, largest, large;
static size_t limit = (size_t) -1;
static __thread long kept;

OUT void __sanitizer_cov_trace_pc(void) { if (armed) steps++; }

static void *got(void *p, size_t n) {
    if (armed && p) {
        requests++;
        bytes += n;
        if (n > largest) largest = n;
        if (n >= limit) large++;
        kept += (long) malloc_usable_size(p);
    }
    return p;
}
OUT void *malloc(size_t n) { return got(__libc_malloc(n), n); }
OUT void *calloc(size_t n, size_t m) { return got(__libc_calloc(n, m), n * m); }
OUT void free(void *p) {
    if (armed && p) kept -= (long) malloc_usable_size(p);
    __libc_free(p);
}
OUT void *realloc(void *p, size_t n) {
    long before = p ? (long) malloc_usable_size(p) : 0;
    void *r = __libc_realloc(p, n);
    if (r) {
        got(r, n);
        if (armed) kept -= before;
    } else if (n == 0 && armed) kept -= before;
    return r;
}
OUT void *memalign(size_t a, size_t n) { return got(__libc_memalign(a, n), n); }
OUT void *aligned_alloc(size_t a, size_t n) { return got(__libc_memalign(a, n), n); }
OUT int posix_memalign(void **out, size_t a, size_t n) {
    void *p = got(__libc_memalign(a, n), n);
    if (p == NULL) return ENOMEM;
    *out = p;
    return 0;
}

typedef void *mover(void *, const void *, size_t);
static mover *real_memmove, *real_memcpy;

static void *move_plain(void *to, const void *from, size_t n) {
    volatile char *d = to;
    const volatile char *s = from;
    if (d <= s) for (size_t i = 0; i < n; i++) d[i] = s[i];
    else for (size_t i = n; i-- > 0;) d[i] = s[i];
    return to;
}
__attribute__((constructor)) static void resolve(void) {
    real_memmove = (mover *) dlsym(RTLD_NEXT, "memmove");
    real_memcpy = (mover *) dlsym(RTLD_NEXT, "memcpy");
}
OUT void *memmove(void *to, const void *from, size_t n) {
    if (armed) moved += n;
    return real_memmove ? real_memmove(to, from, n) : move_plain(to, from, n);
}
OUT void *memcpy(void *to, const void *from, size_t n) {
    if (armed) moved += n;
    return real_memcpy ? real_memcpy(to, from, n) : move_plain(to, from, n);
}

static PyObject *measure(PyObject *self, PyObject *const *args, Py_ssize_t nargs) {
    if (nargs < 1) {
        PyErr_SetString(PyExc_TypeError, "measure(function, *args)");
        return NULL;
    }
    steps = moved = requests = bytes = largest = large = 0;
    kept = 0;
    armed = 1;
    PyObject *r = PyObject_Vectorcall(args[0], args + 1, (size_t) (nargs - 1), NULL);
    armed = 0;
    if (r == NULL) return NULL;
    return Py_BuildValue("kkkkkklN", steps, moved, requests, bytes, largest, large, kept, r);
}

static PyObject *threshold(PyObject *self, PyObject *n) {
    limit = PyLong_AsSize_t(n);
    if (PyErr_Occurred()) return NULL;
    Py_RETURN_NONE;
}

static PyMethodDef methods[] = {{"threshold", threshold, METH_O, NULL}, {"measure", (PyCFunction) (void (*)(void)) measure, METH_FASTCALL, NULL}, {NULL}};
static struct PyModuleDef module = {PyModuleDef_HEAD_INIT, "costs", NULL, -1, methods};
OUT PyObject *PyInit_costs(void) { return PyModule_Create(&module); }
