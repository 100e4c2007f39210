"""Operations the instrumented code calls (``_vc_``)."""
import builtins
import copy as _copy
import functools
import inspect
import logging
import types
import z3

from . import core, models, wild
from .core import PathEnd, Unsupported
from .sym import (
    SBool, SBytes, SInt, SMap, SRange, SReal, SSeq, SStr, Sym, TOSTR_I, TOSTR_R,
    VDict, INTOF, bounded_iter, concrete_int, has_sym, is_byteslike, iv, lift_bytes, mk, num,
    real, same, zb, zint, zstr,
)

INSTR_PREFIX = "vtelem"
LOG_METHODS = {"debug", "info", "warning", "warn", "error", "exception", "critical", "log"}


def active():
    c = core.CUR
    return c is not None and c.symbolic


def own(f):
    """Code that is executed as it is: the package's, a contract's, containers."""
    mod = getattr(f, "__module__", None) or ""
    if mod.startswith((INSTR_PREFIX, "pyvc", "specs", "contextlib")):
        return True
    if type(f).__module__.startswith(("pyvc", "specs", INSTR_PREFIX)):
        return True
    if f in (list, dict, set, tuple, frozenset):
        return False
    slf = getattr(f, "__self__", None)
    if isinstance(slf, (list, dict, set)) or isinstance(slf, Sym):
        return True
    return isinstance(f, type) and issubclass(f, (BaseException, list, dict, set, tuple))


# -- calls -------------------------------------------------------------------
def call(f, *args, **kwargs):
    c = core.CUR
    if c is None:
        return f(*args, **kwargs)
    if getattr(f, "__vc_model__", False):
        return f(*args, **kwargs)
    if any(type(a) is VDict for a in args):
        args = tuple(real(a) for a in args)
    if type(getattr(f, "__self__", None)) is VDict:
        slf = f.__self__
        if slf.vc is not None:
            return getattr(slf.vc, f.__name__)(*args, **kwargs)
        return container_method(slf, getattr(super(VDict, slf), f.__name__), args, kwargs)
    if type(f) is wild.Wild:
        return f(*args, **kwargs)
    unknown = wild.find(args, kwargs) if wild.USED else None
    if unknown is not None and not own(f):
        return unknown.vc_external(f)
    model = models.lookup(f)
    if model is not None:
        return model(*args, **kwargs)
    # functions of the package: contract or body
    if isinstance(f, (types.FunctionType, types.MethodType)):
        fn = f.__func__ if isinstance(f, types.MethodType) else f
        mod = getattr(fn, "__module__", "") or ""
        if mod.startswith(INSTR_PREFIX):
            key = mod + ":" + fn.__qualname__
            c.called.add(key)
            spec = c.contracts.get(key)
            if spec is not None and key not in getattr(c, "inlining", ()):
                cargs = args
                if isinstance(f, types.MethodType):
                    cargs = (f.__self__,) + args
                try:
                    bound = inspect.signature(fn).bind(*cargs, **kwargs)
                    bound.apply_defaults()
                except TypeError:
                    bound = None
                if bound is not None:
                    try:
                        sig = inspect.signature(spec)
                        sig.bind(c, *bound.args, **bound.kwargs)
                    except TypeError:
                        c.notes.append("contract of %s does not fit its signature" % key)
                    else:
                        c.summarised.add(key)
                        return spec(c, *bound.args, **bound.kwargs)
            c.depth += 1
            if c.depth > 60:
                c.depth -= 1
                raise Unsupported("recursion too deep in %s" % key)
            try:
                return f(*args, **kwargs)
            finally:
                c.depth -= 1
        if mod.startswith("pyvc") or mod.startswith("specs"):
            return f(*args, **kwargs)
        if mod == "logging" and isinstance(getattr(f, "__self__", None), logging.Logger):
            if fn.__name__ in LOG_METHODS:
                return None
        if any(has_sym(a) for a in args) or any(has_sym(a) for a in kwargs.values()):
            if mod in ("typing", "contextlib", "functools", "enum", "collections"):
                return f(*args, **kwargs)
            raise Unsupported("external function %s.%s on symbolic data" % (mod, getattr(fn, "__qualname__", fn)))
        return f(*args, **kwargs)
    if isinstance(f, type):
        if f.__module__.startswith(INSTR_PREFIX) or f.__module__.startswith("pyvc"):
            if issubclass(f, enum_base()) and args and isinstance(args[0], Sym):
                return enum_lookup(f, args[0])
            return f(*args, **kwargs)
    if isinstance(f, (types.BuiltinFunctionType, types.BuiltinMethodType)):
        slf = getattr(f, "__self__", None)
        if isinstance(slf, logging.Logger):
            return None
        if isinstance(slf, (list, dict, bytes, bytearray, str, tuple, set)):
            return container_method(slf, f, args, kwargs)
    if isinstance(getattr(f, "__self__", None), Sym):
        return f(*args, **kwargs)
    if isinstance(f, functools.partial):
        return call(f.func, *f.args, *args, **{**f.keywords, **kwargs})
    if any(has_sym(a) for a in args) or any(has_sym(a) for a in kwargs.values()):
        if isinstance(f, type) and issubclass(f, BaseException):
            return f(*args, **kwargs)
        if isinstance(f, type) and issubclass(f, tuple) and hasattr(f, "_fields"):
            return f(*args, **kwargs)
        if getattr(type(f), "__module__", "").startswith(("pyvc", "specs", "vtelem")):
            return f(*args, **kwargs)
        raise Unsupported("call of %r on symbolic data" % (f,))
    return f(*args, **kwargs)


def enum_base():
    import enum

    return enum.Enum


def enum_lookup(cls, val):
    """Enum(value) with a symbolic value: decides the member."""
    for member in cls:
        if core.CUR.branch(zb(same(member.value, val))):
            return member
    raise ValueError("%r is not a valid %s" % ("<symbolic>", cls.__name__))


def container_method(slf, f, args, kwargs):
    name = f.__name__
    symbolic = any(has_sym(a) for a in args)
    if isinstance(slf, dict):
        symkeys = any(isinstance(k, Sym) for k in slf)
        if name in ("get", "pop", "setdefault") and (symkeys or (args and isinstance(args[0], Sym))):
            hit = dict_find(slf, args[0])
            if name == "get":
                return slf[hit[0]] if hit else (args[1] if len(args) > 1 else None)
            if name == "pop":
                if hit:
                    return slf.pop(hit[0])
                if len(args) > 1:
                    return args[1]
                raise KeyError(args[0])
            if hit:
                return slf[hit[0]]
            val = args[1] if len(args) > 1 else None
            slf[args[0]] = val
            return val
        if name == "update":
            src = args[0] if args else {}
            if isinstance(src, SMap):
                if type(slf) is VDict and slf.vc is None and not dict.__len__(slf) and not kwargs:
                    slf.vc = models.m_dict(src)
                    slf.vc.default = slf.default_factory
                    return None
                raise Unsupported("update by a symbolic mapping")
            if isinstance(src, dict):
                for k, v in src.items():
                    sub(slf)[k] = v
                for k, v in kwargs.items():
                    sub(slf)[k] = v
                return None
        if name in ("items", "keys", "values", "copy", "clear", "popitem", "get", "pop", "setdefault"):
            return f(*args, **kwargs)
    if isinstance(slf, list):
        if name in ("append", "insert", "extend", "pop", "clear", "copy", "reverse"):
            if name == "extend" and isinstance(args[0], SSeq):
                if args[0].tail or True:
                    raise Unsupported("extend by a symbolic list")
            if name == "pop" and args and isinstance(args[0], Sym):
                raise Unsupported("pop at a symbolic index")
            return f(*args, **kwargs)
        if name in ("remove", "index", "count"):
            for i, val in enumerate(slf):
                if core.CUR.branch(zb(same(val, args[0]))):
                    if name == "remove":
                        del slf[i]
                        return None
                    if name == "index":
                        return i
            if name == "count":
                raise Unsupported("count")
            raise ValueError("not in list")
    if isinstance(slf, set):
        if name == "add":
            for val in slf:
                if core.CUR.branch(zb(same(val, args[0]))):
                    return None
            return f(*args)
    if isinstance(slf, (bytearray,)) and name == "extend" and isinstance(args[0], SBytes):
        raise Unsupported("native bytearray extended by symbolic bytes")
    if isinstance(slf, str):
        if name == "join":
            items = args[0]
            if isinstance(items, SSeq):
                raise Unsupported("join of a symbolic list")
            items = list(items)
            if has_sym(items):
                out = ""
                for i, it in enumerate(items):
                    out = out + (slf if i else "") + it
                return out
            return slf.join(items)
        if name == "format" and (symbolic or has_sym(kwargs)):
            raise Unsupported("str.format")
    if isinstance(slf, (bytes, bytearray)) and name == "join":
        items = list(args[0])
        out = b""
        for i, it in enumerate(items):
            out = out + (slf if i else b"") + it
        return out
    if symbolic or has_sym(kwargs):
        raise Unsupported("%s.%s on symbolic data" % (type(slf).__name__, name))
    return f(*args, **kwargs)


# -- containers --------------------------------------------------------------
def new_dict():
    return {} if core.CUR is None or not core.CUR.symbolic else VDict()


def dict_find(d, key):
    """Native dict, symbolic keys: the matching stored key as a 1-tuple."""
    if not isinstance(key, Sym):
        if not any(isinstance(k, Sym) for k in d):
            return (key,) if key in d else None
    for k in list(d):
        if k is key:
            return (k,)
    for k in list(d):
        if isinstance(k, Sym) or isinstance(key, Sym):
            if core.CUR.branch(zb(same(k, key))):
                return (k,)
        elif k == key:
            return (k,)
    return None


def getitem(obj, key):
    if core.CUR is None:
        return obj[key]
    obj = real(obj)
    if isinstance(key, slice):
        parts = [key.start, key.stop, key.step]
        if any(isinstance(p, Sym) for p in parts):
            if isinstance(obj, (bytes, bytearray)):
                return lift_bytes(obj).get(key)
            if isinstance(obj, (list, tuple, str)):
                parts = [p if not isinstance(p, Sym) else need_int(p) for p in parts]
                return obj[slice(*parts)]
        return obj[key]
    if isinstance(obj, (SMap, SSeq, SBytes)):
        return obj[key]
    if isinstance(obj, dict):
        if isinstance(key, Sym) or any(isinstance(k, Sym) for k in obj):
            hit = dict_find(obj, key)
            if hit:
                return obj[hit[0]]
            if hasattr(obj, "default_factory") and obj.default_factory is not None:
                val = call(obj.default_factory)
                obj[key] = val
                return val
            if hasattr(type(obj), "__missing__") and not hasattr(obj, "default_factory"):
                return type(obj).__missing__(obj, key)
            raise KeyError(key)
        return obj[key]
    if isinstance(key, SInt) and isinstance(obj, (list, tuple, bytes, bytearray)):
        n = len(obj)
        c = core.CUR
        if c.branch(z3.Or(key.t >= n, key.t < -n)):
            raise IndexError("index out of range")
        if isinstance(obj, (bytes, bytearray)):
            return lift_bytes(obj).get(key)
        for i in range(n):
            if c.branch(z3.Or(key.t == i, key.t == i - n)):
                return obj[i]
        raise PathEnd("index")
    return obj[key]


def need_int(x):
    val = concrete_int(x)
    if val is None:
        raise Unsupported("symbolic index into a native sequence")
    return val


class Sub:
    """Store/delete/augmented access to a container."""

    __slots__ = ("obj",)

    def __init__(self, obj):
        self.obj = obj

    def __getitem__(self, key):
        return getitem(self.obj, key)

    def __setitem__(self, key, val):
        obj = self.obj
        if isinstance(obj, dict) and core.CUR is not None:
            if isinstance(key, Sym) or any(isinstance(k, Sym) for k in obj):
                hit = dict_find(obj, key)
                obj[hit[0] if hit else key] = val
                return
        if isinstance(obj, list) and isinstance(key, SInt):
            for i in range(len(obj)):
                if core.CUR.branch(z3.Or(key.t == i, key.t == i - len(obj))):
                    obj[i] = val
                    return
            raise IndexError("list assignment index out of range")
        if isinstance(obj, bytearray) and (isinstance(key, Sym) or has_sym(val)):
            raise Unsupported("symbolic store into a native bytearray")
        obj[key] = val

    def __delitem__(self, key):
        obj = self.obj
        if isinstance(obj, dict) and core.CUR is not None:
            hit = dict_find(obj, key)
            if hit is None:
                raise KeyError(key)
            del obj[hit[0]]
            return
        if isinstance(obj, list) and isinstance(key, SInt):
            raise Unsupported("symbolic delete")
        del obj[key]


def sub(obj):
    return Sub(real(obj))


def is_none(x):
    """x is None; undecided for an unknown value."""
    if type(x) is wild.Wild:
        return x.vc_none()
    return x is None


def unpack(x, n):
    """a, b = x"""
    if type(x) is wild.Wild:
        return x.vc_unpack(n)
    return x


def contains(item, obj):
    if core.CUR is None:
        return item in obj
    obj = real(obj)
    if isinstance(obj, dict):
        return dict_find(obj, item) is not None
    if isinstance(obj, SMap):
        return obj.contains(item)
    if isinstance(obj, SSeq):
        hook = getattr(obj, "member", None)
        if hook is not None:
            return bool(hook(item))
        raise Unsupported("membership in a symbolic list")
    if isinstance(obj, (list, tuple, set, frozenset)) and (isinstance(item, Sym) or has_sym(obj)):
        for x in obj:
            if x is item or core.CUR.branch(zb(same(x, item))):
                return True
        return False
    if isinstance(obj, (SStr, str)) and isinstance(item, (SStr, str)):
        if isinstance(obj, str) and isinstance(item, str):
            return item in obj
        return bool(mk(z3.Contains(zstr(obj), zstr(item))))
    if isinstance(obj, type) and issubclass(obj, enum_base()) and isinstance(item, Sym):
        for x in obj:
            if core.CUR.branch(zb(same(x.value, item))):
                return True
        return False
    return item in obj


# -- arithmetic gaps ----------------------------------------------------------
def mod(a, b):
    if isinstance(a, str) and has_sym(b):
        return models.percent_format(a, b)
    return a % b


def mul(a, b):
    if isinstance(b, SInt) and isinstance(a, (bytes, bytearray, list, str)) or (
        isinstance(a, SInt) and isinstance(b, (bytes, bytearray, list, str))
    ):
        seq, n = (a, b) if isinstance(b, SInt) else (b, a)
        if isinstance(seq, (bytes, bytearray)) and len(seq) == 1:
            const = iv(seq[0])
            nn = core.CUR.ite(n.t >= 0, n.t, iv(0))
            return SBytes(nn, lambda j: const, "bytes" if isinstance(seq, bytes) else "bytearray")
        raise Unsupported("sequence repetition")
    return a * b


def pow(a, b):  # pylint: disable=redefined-builtin
    return a ** b


# -- strings ------------------------------------------------------------------
def to_str(x):
    """str(x) for any value, possibly symbolic."""
    if isinstance(x, SStr):
        return x
    if isinstance(x, SInt):
        core.CUR.add(INTOF(TOSTR_I(x.t)) == x.t)
        return SStr(TOSTR_I(x.t))
    if isinstance(x, SBool):
        return "True" if x else "False"
    if isinstance(x, SReal):
        return SStr(TOSTR_R(x.t))
    if isinstance(x, Sym):
        return SStr(z3.String(core.CUR.fresh_name("str_of")))
    if isinstance(x, (dict, list, tuple, set)) and has_sym(x):
        return SStr(z3.String(core.CUR.fresh_name("str_of")))
    tp = type(x)
    if tp.__module__.startswith(INSTR_PREFIX) and isinstance(tp.__dict__.get("__str__") or find_str(tp), types.FunctionType):
        return x.__str__()
    return str(x)


def find_str(tp):
    for k in tp.__mro__:
        if "__str__" in k.__dict__:
            return k.__dict__["__str__"]
    return None


def fstr(*parts):
    out = ""
    for p in parts:
        if isinstance(p, str):
            out = out + p
            continue
        val, conv, spec = p
        if conv == 114 and isinstance(val, Sym):
            val = SStr(z3.String(core.CUR.fresh_name("repr_of")))
        elif conv == 114:
            val = repr(val)
        if spec:
            if isinstance(val, Sym):
                val = SStr(z3.String(core.CUR.fresh_name("fmt_of")))
            else:
                val = format(val, spec)
        out = out + to_str(val)
    return out


# -- comprehensions -----------------------------------------------------------
def citer(it):
    it = real(it)
    if isinstance(it, (SSeq, SMap)):
        return iter(it)
    return it


def listcomp(fn, it, filt=None):
    """[fn(x) for x in it if filt(x)]"""
    it = real(it)
    if type(it) is wild.Wild and core.CUR is not None and core.CUR.loops:
        seq = it.vc_seq()
        spec = loop_of(seq)
        if spec is not None:
            return loops.comp_loop(spec, fn, filt, seq, [], lambda res, x: res.append(x))
    if filt is not None:
        seq = it.keys() if core.CUR is not None and isinstance(it, SMap) else it
        spec = loop_of(seq)
        if spec is not None and not spec.match_comp(fn, seq):
            return loops.comp_loop(spec, fn, filt, seq, [], lambda res, x: res.append(x))
        if core.CUR is None or not isinstance(seq, SSeq) or seq.tail or concrete_int(seq.length()) is not None \
                or not filtered(filt, seq):
            return [fn(x) for x in citer(it) if filt(x)]
    if core.CUR is not None and isinstance(it, SMap):
        it = it.keys()
    if core.CUR is not None and isinstance(it, SSeq) and not it.tail:
        hook = getattr(core.CUR, "listcomp_hook", None)
        if hook is not None:
            res = hook(fn, it)
            if res is not None:
                return res
        spec = loops.find_spec(lambda s: s.match_comp(fn, it))
        if spec is not None:
            return loops.comp_cut(spec, fn, it)
        if concrete_int(it.length()) is None:
            spec = loop_of(it)
            cand = ("comp", fn.__code__.co_qualname, fn.__code__.co_firstlineno)
            if spec is None:
                return lazy_map(fn, it)
            if cand in core.CUR.houdini_dead:
                return loops.comp_loop(spec, fn, None, it, [], lambda res, x: res.append(x))
            try:
                return lazy_map(fn, it)
            except SideEffects:
                # a loop after all
                raise loops.Restart([cand]) from None
    return [fn(x) for x in citer(it)]


def claimed(kind, fn, filt, star, it, plain):
    """A comprehension (list, dict, sum, any, all) over a collection whose
    loops have a contract; without one, the expression itself."""
    c = core.CUR
    it = real(it)
    if c is None or not c.symbolic or not c.loops:
        return plain(it if c is None else citer(it))
    seq = it
    if type(it) is wild.Wild:
        seq = it.vc_seq()
    elif isinstance(it, SMap):
        seq = it.keys()
    spec = loop_of(seq)
    if spec is None:
        return plain(citer(it))
    if kind == "list":
        return loops.comp_loop(spec, fn, filt, seq, [], lambda res, x: res.append(x), star)
    if kind == "dict":
        return loops.comp_loop(spec, fn, filt, seq, VDict(), lambda res, x: res.__setitem__(*x), star)
    return loops.fold_loop(spec, kind, fn, filt, seq, star)


class SideEffects(Unsupported):
    """A comprehension changes what is around it."""


def loop_of(seq):
    """The contract of loops over a collection."""
    c = core.CUR
    if c is None or not isinstance(seq, SSeq) or seq.tail:
        return None
    return loops.find_spec(lambda s: s.match_for(seq, "comprehension", 0))


def filtered(filt, it):
    """Does every element pass the filter? (an arbitrary one is tried)"""
    c = core.CUR
    k = z3.Int(c.fresh_name("lf"))
    if not c.branch(it.n > 0):
        return True
    c.add(z3.And(k >= 0, k < it.n))
    return c.entails(zb(filt(it.base_at(k))))


def dictcomp(fn, star, it, plain):
    """{k: v for .. in it}: fn makes the pair; plain() is the comprehension itself."""
    it = real(it)
    if core.CUR is not None and isinstance(it, SMap):
        it = it.keys()
    if type(it) is wild.Wild and core.CUR is not None:
        return claimed("dict", fn, None, star, it, plain)
    if core.CUR is None or not isinstance(it, SSeq) or it.tail:
        return plain(citer(it))
    pair = (lambda x: fn(*x)) if star else fn
    spec = loops.find_spec(lambda s: s.match_comp(fn, it))
    if spec is not None:
        return loops.comp_cut(spec, fn, it, pair)
    src = getattr(it, "source", None)
    if concrete_int(it.length()) is not None or src is None or src[1].overlay:
        return plain(citer(it))
    # {key: f(key, value)}: the same keys, other values
    what, smap = src
    from . import heap

    c = core.CUR
    claim = loop_of(it)
    cand = ("comp", fn.__code__.co_qualname, fn.__code__.co_firstlineno)
    if claim is not None and cand in c.houdini_dead:
        return loops.comp_loop(claim, fn, None, it, VDict(), lambda res, x: res.__setitem__(*x), star)
    roots = [c.g, fn.__closure__ and [cell_value(x) for x in fn.__closure__]]
    before = heap.snapshot(roots)
    if c.branch(it.n > 0):
        k = z3.Int(c.fresh_name("dc"))
        c.add(z3.And(k >= 0, k < it.n))
        key = pair(it.base_at(k))[0]
        if type(key) is not type(smap.keys_seq(k)) or not c.entails(zb(same(key, smap.keys_seq(k)))):
            if claim is not None:
                # a loop after all
                raise loops.Restart([cand])
            raise Unsupported("dict comprehension that changes the keys of a symbolic mapping")
        diff = [d for d in heap.diff(before, heap.snapshot(roots)) if d[2] != "cachevals" and not d[1].endswith("cachevals")]
        if diff and claim is not None:
            raise loops.Restart([cand])
        if diff:
            raise Unsupported("dict comprehension with side effects over a symbolic mapping: %s" % (diff[:2],))
    elem = {"items": lambda key: (key, smap.val_base(key)), "keys": lambda key: key}.get(what)
    if elem is None:
        return plain(citer(it))
    res = VDict()
    res.vc = SMap(smap.has_base, lambda key: pair(elem(key))[1], None, smap.keys_seq, smap.n, smap.tag, smap.name)
    return res


def lazy_map(fn, it):
    """Pure element expressions: a mapped symbolic list; checked pure by a
    heap snapshot around one arbitrary element."""
    from . import heap

    c = core.CUR
    roots = [c.g, fn.__closure__ and [cell_value(x) for x in fn.__closure__]]
    k = z3.Int(c.fresh_name("lc"))
    before = heap.snapshot(roots)
    if c.branch(it.n > 0):
        sub_k = k
        c.add(z3.And(sub_k >= 0, sub_k < it.n))
        fn(it.base_at(sub_k))
        diff = heap.diff(before, heap.snapshot(roots))
        if diff:
            raise SideEffects("comprehension with side effects over a symbolic list: %s" % (diff[:2],))
    base = it
    return SSeq(it.n, lambda i: fn(base.base_at(i)), getattr(it, "tag", None))


def cell_value(cell):
    try:
        return cell.cell_contents
    except ValueError:
        return None


# -- loops --------------------------------------------------------------------
from . import loops  # noqa: E402
from .loops import for_begin, more, wbreak, while_begin, wmore, wtest  # noqa: E402,F401
