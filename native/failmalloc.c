// Preloaded into a child: makes chosen allocations of one call fail. Also importable, as the module failmalloc:
// call(n, mode, function, *args) runs the function with the n-th allocation failing (mode 1), with all from the n-th
// on failing (mode 2), or with none failing (mode 0), and returns (allocations seen, failures, raised, result).
// kept() counts the blocks allocated since begin() (or since the last call began) that are still in use.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <errno.h>
#include <stddef.h>
#include <string.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

static __thread long seen, failures, target;
static __thread int armed;

static int fails(void) {
    if (!armed) return 0;
    seen++;
    if (armed == 3) return 0;
    if (armed == 1 ? seen == target : seen >= target) {
        failures++;
        return 1;
    }
    return 0;
}

// the blocks allocated during the call; the calling thread alone allocates then, but any may free later
#define SLOTS 65536
#define GONE ((void *) 1)
static void *table[SLOTS];
static long blocks, entries;
static int tracking;
static int lock;

static void enter(void) { while (__atomic_exchange_n(&lock, 1, __ATOMIC_ACQUIRE)) {} }
static void leave(void) { __atomic_store_n(&lock, 0, __ATOMIC_RELEASE); }
static size_t slot(void *p) { return ((size_t) p >> 4) * 0x9E3779B97F4A7C15ull >> 48; }

static void *born(void *p) {
    if (!armed || p == NULL) return p;
    enter();
    if (entries < SLOTS / 2) {
        size_t i = slot(p);
        while (table[i] != NULL) i = (i + 1) % SLOTS;
        table[i] = p;
        blocks++, entries++;
    }
    leave();
    return p;
}

static int dead(void *p) {
    int found = 0;
    if (!__atomic_load_n(&tracking, __ATOMIC_RELAXED) || p == NULL) return 0;
    enter();
    for (size_t i = slot(p); table[i] != NULL; i = (i + 1) % SLOTS)
        if (table[i] == p) {
            table[i] = GONE;
            blocks--;
            found = 1;
            break;
        }
    leave();
    return found;
}

#define OUT __attribute__((visibility("default")))
OUT void *malloc(size_t n) {
    if (fails()) { errno = ENOMEM; return NULL; }
    return born(__libc_malloc(n));
}
OUT void *calloc(size_t n, size_t m) {
    if (fails()) { errno = ENOMEM; return NULL; }
    return born(__libc_calloc(n, m));
}
OUT void *realloc(void *p, size_t n) {
    if (n != 0 && fails()) { errno = ENOMEM; return NULL; }
    int known = dead(p);
    void *q = __libc_realloc(p, n);
    // a block that was there before the call and only moved does not count
    return known || p == NULL ? born(q) : q;
}
OUT void free(void *p) {
    dead(p);
    __libc_free(p);
}
OUT int posix_memalign(void **out, size_t a, size_t n) {
    if (fails()) return ENOMEM;
    void *p = __libc_memalign(a, n);
    if (p == NULL) return ENOMEM;
    *out = born(p);
    return 0;
}
OUT void *aligned_alloc(size_t a, size_t n) {
    if (fails()) { errno = ENOMEM; return NULL; }
    return born(__libc_memalign(a, n));
}
OUT void *memalign(size_t a, size_t n) {
    if (fails()) { errno = ENOMEM; return NULL; }
    return born(__libc_memalign(a, n));
}

static void reset(void) {
    enter();
    if (entries) memset(table, 0, sizeof table);
    blocks = entries = 0;
    leave();
    __atomic_store_n(&tracking, 1, __ATOMIC_RELAXED);
}

static int begun;

static PyObject *begin(PyObject *self, PyObject *unused) {
    reset();
    begun = 1;
    armed = 3;
    Py_RETURN_NONE;
}

static PyObject *kept(PyObject *self, PyObject *unused) {
    return PyLong_FromLong(blocks);
}

static PyObject *call(PyObject *self, PyObject *const *args, Py_ssize_t nargs) {
    if (nargs < 3) {
        PyErr_SetString(PyExc_TypeError, "call(n, mode, function, *args)");
        return NULL;
    }
    armed = 0;
    long n = PyLong_AsLong(args[0]);
    long mode = PyLong_AsLong(args[1]);
    if (PyErr_Occurred()) return NULL;
    seen = failures = 0;
    target = n;
    if (!begun) reset();
    begun = 0;
    armed = mode == 0 ? 3 : (int) mode;
    PyObject *r = PyObject_Vectorcall(args[2], args + 3, (size_t) (nargs - 3), NULL);
    armed = 0;
    long s = seen, f = failures;
    int both = r != NULL && PyErr_Occurred() != NULL;
    int none = r == NULL && PyErr_Occurred() == NULL;
    PyObject *e = PyErr_GetRaisedException();
    int raised = both ? 2 : none ? 3 : e != NULL;
    PyObject *value = e != NULL ? e : r != NULL ? r : Py_None;
    PyObject *result = Py_BuildValue("lliO", s, f, raised, value);
    Py_XDECREF(r);
    Py_XDECREF(e);
    return result;
}

static PyMethodDef methods[] = {{"call", (PyCFunction) (void *) call, METH_FASTCALL, NULL},
                                {"kept", kept, METH_NOARGS, NULL}, 
                                {"begin", begin, METH_NOARGS, NULL}, {NULL, NULL, 0, NULL}};
static struct PyModuleDef module = {PyModuleDef_HEAD_INIT, "failmalloc", NULL, -1, methods};
OUT PyMODINIT_FUNC PyInit_failmalloc(void) { return PyModule_Create(&module); }
