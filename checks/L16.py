"""L16: the exported types are complete from the moment of import, whatever is touched first."""
import sys
import ast
import os
import random
import signal

from lib import build as B
from lib.monitor import Violation

RULE = ("A case is a fresh process (forked before the package is imported) that imports the package in one of several orders and "
        "touches one member of one type by one route before anything else: every (type, documented or inherited list "
        "member, route) is enumerated. What the route finds is used and its effect compared with a built-in list (list types) "
        "or with the documented kind of result. With cases leave with statements by every built-in exception. distinct_nontrivial counts distinct (type, member, route, import order).")
ASSUMPTIONS = ["the interface files (.pyi) name the documented members"]
LEVEL = "exploration"

LISTS = ["IntArrayList", "BigIntArrayList", "IntLinkedList", "ObjectArrayList", "ObjectLinkedList"]
ORDERS = ["direct", "ints-first", "objects-first", "unsafe-first", "star", "package", "twice"]
MODULE = {"IntArrayList": "ints", "BigIntArrayList": "ints", "IntLinkedList": "ints", "ObjectArrayList": "objects",
          "ObjectLinkedList": "objects", "Unsafe": "unsafe", "SIMD": "unsafe", "ASM": "unsafe", "SIMDLowAVX512": "unsafe"}
ROUTES = ["instance", "hasattr", "class", "call", "unbound", "subclass", "super", "dir", "no-init", "partial", "second"]

# member -> (arguments, call on an instance holding [3, 1, 2])
SAMPLE = {
    "append": (4,), "clear": (), "copy": (), "count": (1,), "extend": ([7, 8],), "index": (2,), "insert": (1, 9), "pop": (),
    "remove": (1,), "reverse": (), "sort": (), "__len__": (), "__getitem__": (1,), "__setitem__": (0, 5), "__delitem__": (0,),
    "__contains__": (2,), "__iter__": (), "__reversed__": (), "__add__": ([1],), "__mul__": (2,), "__rmul__": (2,),
    "__iadd__": ([4],), "__imul__": (2,), "__eq__": ([3, 1, 2],), "__ne__": ([3, 1, 2],), "__lt__": ([3, 1, 3],),
    "__le__": ([3, 1, 2],), "__gt__": ([0],), "__ge__": ([9],), "__repr__": (), "__str__": (),
}
ARRAY_ONLY = {"resize": (5,), }
OWN = {"to_list": ()}


def documented(name):
    """The members the interface files document for a class."""
    module = MODULE.get(name.removesuffix("Iter"), "unsafe")
    path = os.path.join(B.PKG, module + ".pyi") if module != "unsafe" else os.path.join(B.PKG, "unsafe", name + ".pyi")
    with open(path) as f:
        tree = ast.parse(f.read())
    for node in tree.body:
        if isinstance(node, ast.ClassDef) and node.name == name:
            return sorted({n.name for n in node.body if isinstance(n, ast.FunctionDef)})
    return []


def plan():
    """Every (type, member, route)."""
    r = []
    for k in LISTS:
        members = sorted(set(documented(k)) | set(SAMPLE) | set(OWN) | {"__init__", "__new__", "__class_getitem__"})
        for m in members:
            for route in ROUTES:
                r.append((k, m, route))
        for m in ("__iter__", "__next__"):
            for route in ("instance", "hasattr", "class", "call", "unbound", "dir", "reversed"):
                r.append((k + "Iter", m, route))
    for k in ("Unsafe", "SIMD", "ASM"):
        for m in documented(k):
            for route in ("instance", "hasattr", "class", "dir", "subclass"):
                r.append((k, m, route))
    for i, m in enumerate(documented("SIMDLowAVX512")):
        for route in (("instance", "class", "hasattr", "dir")[i % 4], "instance"):
            r.append(("SIMDLowAVX512", m, route))
    return sorted(set(r))


def shards(tier, seed):
    n = len(plan())
    return [dict(name="first-touch", lo=0, hi=n * (1 if tier == "quick" else 6), split=16, mode="touch"),
            dict(name="with", lo=0, hi=1500 if tier == "quick" else 40000, split=1, mode="with"),
            dict(name="asan-with", variant="asan", lo=0, hi=200, split=1, mode="with"),
            dict(name="names", lo=0, hi=40, split=2, mode="names"),
            dict(name="asan-first-touch", lo=0, hi=n // (8 if tier == "quick" else 1), split=8, mode="touch", variant="asan")]


PLAN = None


def setup(ctx, shard):
    global PLAN
    PLAN = plan()


def load(order, name):
    """Imports the package in one order, returns the class."""
    module = MODULE[name.removesuffix("Iter")]
    if order == "ints-first":
        import pyfastutil.ints  # noqa: F401
    elif order == "objects-first":
        import pyfastutil.objects  # noqa: F401
    elif order == "unsafe-first":
        import pyfastutil.unsafe  # noqa: F401
    elif order == "star":
        ns = {}
        exec("from pyfastutil.%s import *" % module, ns)
        return ns[name]
    elif order == "package":
        import pyfastutil  # noqa: F401
    elif order == "twice":
        import importlib
        import sys
        importlib.import_module("pyfastutil." + module)
        for m in [m for m in sys.modules if m.startswith("pyfastutil.") and "__pyfastutil" not in m]:
            del sys.modules[m]
    import importlib
    return getattr(importlib.import_module("pyfastutil." + module), name)


def forked(fn):
    """Runs fn in a fresh process; returns its text, raises on a crash."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                text = fn() or "ok"
            except BaseException as e:
                import traceback
                text = "raised %r\n%s" % (e, traceback.format_exc()[-1500:])
            os.write(w, text.encode("utf8", "replace")[:4000])
            os.close(w)
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        part = os.read(r, 65536)
        if not part:
            break
        data += part
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return "killed by signal %s" % signal.Signals(os.WTERMSIG(status)).name
    if os.WEXITSTATUS(status):
        return "exit %d" % os.WEXITSTATUS(status)
    return data.decode("utf8", "replace")


def run_case(ctx, shard, case):
    rng = ctx.rng
    if shard["mode"] == "with":
        return with_case(ctx, rng)
    if shard["mode"] == "names":
        order = ORDERS[case % len(ORDERS)]
        ctx.mark("names " + order)
        text = forked(lambda: names(order, case))
        if text != "ok":
            raise Violation("names", "import order %s: %s" % (order, text))
        ctx.count("import orders checked")
        ctx.distinct("names", order, case)
        return
    if shard.get("variant") == "asan":  # a sample of the plan, another one for every seed
        name, member, route = PLAN[(case * 8 + ctx.seed) % len(PLAN)]
        if name == "SIMDLowAVX512":
            return  # not part of this build
    else:
        name, member, route = PLAN[case % len(PLAN)]
    order = ORDERS[(case // len(PLAN) + rng.randrange(len(ORDERS))) % len(ORDERS)]
    what = "%s.%s by %s, import order %s" % (name, member, route, order)
    ctx.mark(what)
    seed = rng.random()
    text = forked(lambda: touch(name, member, route, order, seed))
    if text not in ("ok", "unsupported"):
        raise Violation("%s-%s" % (name if name in LISTS else name, route), "%s: %s" % (what, text))
    ctx.count("first touches checked", text == "ok")
    ctx.count("not applicable here", text == "unsupported")
    ctx.distinct(name, member, route, order)
    ctx.sample(what)


def names(order, case):
    """The names are there, and are the same objects whichever way they are reached."""
    import importlib
    load(order, random.Random(case).choice(sorted(MODULE)))
    for name, module in sorted(MODULE.items()):
        m = importlib.import_module("pyfastutil." + module)
        cls = getattr(m, name)
        assert isinstance(cls, type), name
        assert cls.__name__ == name, (cls.__name__, name)
        inner = getattr(importlib.import_module("pyfastutil.__pyfastutil"), name)
        assert getattr(inner, name) is cls, name
        if name in LISTS:
            assert isinstance(getattr(m, name + "Iter"), type)
            assert type(cls()) is cls and type(iter(cls())) is getattr(m, name + "Iter"), name
            assert type(cls([1]) * 2) is cls and type(cls([1]).copy()) is cls
            for base in (object,):
                assert issubclass(cls, base)
            s = type("S", (cls,), {})
            assert s([1]).to_list() == [1] and type(s()) is s
        else:
            o = cls()
            with o as inside:
                assert inside is o, name
    u = importlib.import_module("pyfastutil.unsafe")
    assert u.NULL == 0
    return "ok"


def touch(name, member, route, order, seed):
    import operator
    import functools
    rng = random.Random(seed)
    cls = load(order, name)
    if name.endswith("Iter"):
        return touch_iter(cls, name, member, route, order)
    if name not in LISTS:
        if route == "subclass":
            try:
                s = type("S", (cls,), {})
            except TypeError:
                return "unsupported"
            return None if callable(getattr(s(), member)) else "not callable"
        return touch_plain(cls, member, route)
    data = [3, 1, 2]
    args = SAMPLE.get(member, ARRAY_ONLY.get(member, OWN.get(member)))
    if member in ("__init__", "__new__", "__class_getitem__", "from_range") or args is None:
        subject = cls(data) if route not in ("class", "no-init") else cls
        if member == "__class_getitem__" and not hasattr(cls, member):
            return "unsupported"
        if route == "hasattr":
            return None if hasattr(subject, member) else "hasattr is False"
        if route == "dir":
            return None if member in dir(subject) else "not in dir()"
        if route == "subclass":
            subject = type("S", (cls,), {})(data)
        got = getattr(subject, member)
        if member == "__init__" and subject is not cls:
            got([5, 6])
            return None if subject.to_list() == [5, 6] else "%r" % subject.to_list()
        if member == "from_range":
            return None if got(2, 9, 3).to_list() == [2, 5, 8] else "wrong elements"
        return None if callable(got) else "not callable"
    model = list(data)
    if route == "instance":
        return apply(lambda L: getattr(L, member)(*args), cls(data), model, member, args)
    if route == "class":
        f = getattr(cls, member)
        return apply(lambda L: f(L, *args), cls(data), model, member, args)
    if route == "hasattr":
        L = cls(data)
        if not hasattr(L, member):
            return "hasattr is False"
        return apply(lambda L: getattr(L, member)(*args), L, model, member, args)
    if route == "dir":
        L = cls(data)
        if member not in dir(L):
            return "not in dir()"
        if not hasattr(type(L), member):
            return "not in the class"
        return apply(lambda L: getattr(L, member)(*args), L, model, member, args)
    if route == "call":
        return apply(syntax(member, args), cls(data), model, member, args)
    if route == "unbound":
        L = cls(data)
        f = type(L).__dict__.get(member)
        if f is None:
            return "not in the type's dictionary"
        return apply(lambda L: f(L, *args), L, model, member, args)
    if route == "subclass":
        s = type("S", (cls,), {})
        return apply(lambda L: getattr(L, member)(*args), s(data), model, member, args)
    if route == "super":
        class S(cls):
            def go(self):
                return getattr(super(), member)(*args)
        return apply(lambda L: L.go(), S(data), model, member, args)
    if route == "no-init":
        L = cls.__new__(cls)
        model = []
        return apply(lambda L: getattr(L, member)(*args), L, model, member, args)
    if route == "partial":
        L = cls(tuple(data))
        f = functools.partial(getattr(L, member), *args)
        return apply(lambda L: f(), L, model, member, args)
    if route == "second":  # made by an operation of the type, not by calling it
        L = rng.choice([lambda: cls(data).copy(), lambda: cls(data) * 1, lambda: cls(data) + cls()])()
        return apply(operator.methodcaller(member, *args), L, model, member, args)
    return "unknown route"


def syntax(member, args):
    import operator
    table = {"__len__": len, "__getitem__": lambda L: L[args[0]], "__setitem__": lambda L: operator.setitem(L, *args),
             "__delitem__": lambda L: operator.delitem(L, *args), "__contains__": lambda L: args[0] in L, "__iter__": iter,
             "__reversed__": reversed, "__add__": lambda L: L + args[0], "__mul__": lambda L: L * args[0],
             "__rmul__": lambda L: args[0] * L, "__iadd__": lambda L: operator.iadd(L, args[0]),
             "__imul__": lambda L: operator.imul(L, args[0]), "__eq__": lambda L: L == args[0],
             "__ne__": lambda L: L != args[0], "__lt__": lambda L: L < args[0], "__le__": lambda L: L <= args[0],
             "__gt__": lambda L: L > args[0], "__ge__": lambda L: L >= args[0], "__repr__": repr, "__str__": str}
    return table.get(member) or operator.methodcaller(member, *args)


def apply(f, subject, model, member, args):
    """Uses the member on both and compares result and contents."""
    def go(fn, L):
        try:
            return "ok", fn(L)
        except (IndexError, ValueError) as e:
            return "raised", type(e)

    def plain(r):
        if hasattr(r, "__next__") or hasattr(r, "to_list") or type(r) is list:
            return list(r)
        return r

    s, got = go(f, subject)
    if member == "resize":
        want = None
        n = args[0]
        fill = 0 if any("Int" in c.__name__ for c in type(subject).__mro__) else None
        model.extend([fill] * (n - len(model)))
        t = "ok"
    elif member == "to_list":
        t, want = "ok", list(model)
    else:
        t, want = go(lambda L: getattr(L, member)(*args), model)
    if (s, plain(got)) != (t, plain(want)):
        return "%s gave %r, a built-in list %r" % (s, plain(got), plain(want))
    if list(subject) != model or subject.to_list() != model or len(subject) != len(model):
        return "the list holds %r instead of %r" % (list(subject), model)
    return None


def touch_iter(cls, name, member, route, order):
    base = load(order, name.removesuffix("Iter"))
    if route == "class":
        f = getattr(cls, member)
        it = iter(base([4, 5]))
        r = f(it)
        return None if (r is it if member == "__iter__" else r == 4) else "%r" % r
    it = iter(base([4, 5])) if route != "reversed" else reversed(base([5, 4]))
    if route == "hasattr" and not hasattr(it, member):
        return "hasattr is False"
    if route == "dir" and member not in dir(it):
        return "not in dir()"
    if type(it) is not cls:
        return "the iterator is a %s" % type(it).__name__
    if route == "call":
        r = iter(it) if member == "__iter__" else next(it)
    elif route == "unbound":
        r = type(it).__dict__[member](it)
    else:
        r = getattr(it, member)()
    if (r is not it) if member == "__iter__" else (r != 4):
        return "%r" % r
    rest = list(it)
    return None if rest == ([4, 5] if member == "__iter__" else [5]) else "%r" % rest


def touch_plain(cls, member, route):
    o = cls if route == "class" else cls()
    if route == "hasattr" and not hasattr(o, member):
        return "hasattr is False"
    if route == "dir" and member not in dir(o):
        return "not in dir()"
    f = getattr(o, member)
    if not callable(f):
        return "not callable"
    if member == "__enter__" and route != "class" and f() is not o:
        return "__enter__ gives another object"
    if member.startswith("is") and member.endswith("Supported") and route != "class" and type(f()) is not bool:
        return "%r" % f()
    return None


# -- with statements ------------------------------------------------------------------------------
class Own(Exception):
    pass


class OwnBase(BaseException):
    pass


def with_case(ctx, rng):
    import builtins
    import contextlib
    import gc
    from pyfastutil import unsafe
    classes = [c for c in (getattr(unsafe, n, None) for n in dir(unsafe)) if isinstance(c, type) and hasattr(c, "__exit__")]
    cls = rng.choice(classes)
    if rng.random() < 0.2:
        try:
            cls = type("Sub", (cls,), {})
        except TypeError:
            pass
    try:
        o = cls()
    except NotImplementedError:
        ctx.count("types not for this platform")
        return
    errors = [c for c in vars(builtins).values() if isinstance(c, type) and issubclass(c, BaseException)
              and c.__name__ not in ("BaseExceptionGroup", "ExceptionGroup")] + [Own, OwnBase]
    error = rng.choice(errors)
    made = error("utf-8", b"ab", 0, 1, "why") if error is UnicodeDecodeError else \
        error("utf-8", "ab", 0, 1, "why") if error is UnicodeEncodeError else \
        error("ab", 0, 1, "why") if error is UnicodeTranslateError else error("text")
    how = rng.choice(["with", "with", "stack", "direct", "direct-odd", "quiet", "nested", "return", "generator"])
    what = "%s, %s %s" % (cls.__name__, how, error.__name__)
    ctx.mark(what)
    before = sys.getrefcount(o), sys.getrefcount(error), sys.getrefcount(made)
    caught = bound = None

    def give():
        with o as x:
            return x, 5

    def run():
        with o:
            yield 1
            raise made
    try:
        if how == "with":
            with o as bound:
                raise made
        elif how == "stack":
            with contextlib.ExitStack() as s:
                bound = s.enter_context(o)
                raise made
        elif how == "direct":
            bound = o.__enter__()
            r = o.__exit__(error, made, None)
            if r:
                raise Violation("with-swallowed", "%s: __exit__ gave %r" % (what, r))
        elif how == "direct-odd":
            bound = o.__enter__()
            try:
                r = o.__exit__(*[rng.choice([None, 1, made, "x"]) for _ in range(rng.randrange(6))])
            except TypeError:
                r = None
            if r:
                raise Violation("with-swallowed", "%s: __exit__ gave %r" % (what, r))
        elif how == "quiet":
            with o as bound:
                pass
        elif how == "nested":
            with o as bound, cls() as other, o:
                raise made
            other = None
        elif how == "return":
            bound, five = give()
            if five != 5:
                raise Violation("with-return", what)
        else:
            g = run()
            next(g)
            bound = o
            if rng.random() < 0.5:
                g.close()
            elif error is StopIteration or error is StopAsyncIteration:
                g.close()
            else:
                next(g)
    except Violation:
        raise
    except BaseException as e:
        caught = e
    if bound is not o:
        raise Violation("with-target", "%s: as gave %r" % (what, bound))
    must = how in ("with", "stack", "nested")
    if must and caught is not made or caught is not None and caught is not made:
        raise Violation("with-exception", "%s: %r left the block instead of %r" % (what, caught, made))
    other = caught = bound = g = r = None
    made.__traceback__ = None
    made.__context__ = None
    gc.collect(0)
    after = sys.getrefcount(o), sys.getrefcount(error), sys.getrefcount(made)
    if after != before:
        raise Violation("with-references", "%s: counts of the object, the exception class and the exception %r became %r" % (
            what, before, after))
    ctx.count("with statements left")
    ctx.distinct("with", what)
