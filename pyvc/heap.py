"""Heap snapshots: the frame (modifies) check of loops and contracts."""
import collections
import enum
import logging
import threading
import types

import z3

from . import core
from .sym import SBytes, SMap, SSeq, Sym, VDict

_LOCK_NEW = threading.Lock
_LOCK = type(threading.Lock())

ATOMS = (
    int, float, bool, str, bytes, type(None), type, types.FunctionType,
    types.MethodType, types.BuiltinFunctionType, types.ModuleType, enum.Enum,
    logging.Logger, types.GeneratorType, range, slice, property,
)


def children(obj):
    """(label, value) pairs of an object's mutable content."""
    if isinstance(obj, SBytes):
        return [("n", obj.n), ("f", obj.f)]
    if isinstance(obj, SSeq):
        return [("n", obj.n), ("start", obj.start), ("tail", obj.tail)]
    if isinstance(obj, SMap):
        return [("overlay", obj.overlay), ("cachevals", [v for _, v in obj.cache])]
    if isinstance(obj, Sym):
        return []
    if type(obj) is VDict and obj.vc is not None:
        return [("vc", obj.vc)]
    if isinstance(obj, dict):
        return [(("k", k), v) for k, v in obj.items()]
    if isinstance(obj, (list, tuple, collections.deque)):
        return list(enumerate(obj))
    if isinstance(obj, (set, frozenset)):
        return [("set", v) for v in obj]
    if isinstance(obj, types.FunctionType):
        return []
    if hasattr(obj, "__dict__"):
        return list(obj.__dict__.items())
    return []


def is_atom(obj):
    return isinstance(obj, ATOMS) and not isinstance(obj, (list, dict))


def snapshot(roots, skip=()):
    """id -> (object, path, [(label, value)])"""
    out = {}
    todo = [(str(i) if not isinstance(i, tuple) else i[0], r) for i, r in enumerate(roots)]
    if isinstance(roots, dict):
        todo = list(roots.items())
    todo.reverse()
    while todo:
        path, obj = todo.pop()
        if is_atom(obj) or id(obj) in out or any(obj is s for s in skip):
            if isinstance(obj, types.FunctionType) and id(obj) not in out and obj.__closure__:
                out[id(obj)] = (obj, path, [])
                for i, cell in enumerate(obj.__closure__):
                    try:
                        todo.append(("%s.<cell%d>" % (path, i), cell.cell_contents))
                    except ValueError:
                        pass
            if isinstance(obj, types.MethodType) and id(obj.__self__) not in out:
                todo.append((path + ".__self__", obj.__self__))
            continue
        mod = type(obj).__module__
        if mod.startswith(("z3", "threading", "_thread", "cvc5")) or isinstance(obj, core.Ctx):
            continue
        kids = children(obj)
        out[id(obj)] = (obj, path, kids)
        for lab, val in reversed(kids):
            if val is not None:
                lab_s = lab[1] if isinstance(lab, tuple) else lab
                if not isinstance(val, z3.AstRef):
                    todo.append(("%s.%s" % (path, lab_s if isinstance(lab_s, (str, int)) else "?"), val))
    return out


def same_value(a, b):
    if a is b:
        return True
    import z3

    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, Sym) and isinstance(b, Sym) and type(a) is type(b) and hasattr(a, "t"):
        return a.t.eq(b.t)
    if is_atom(a) and is_atom(b) and type(a) is type(b):
        try:
            return bool(a == b)
        except Exception:  # pylint: disable=broad-except
            return False
    return False


def diff(before, after):
    """Locations (object, path, label, old, new) that changed; objects that
    did not exist before are new and not part of the frame."""
    out = []
    for oid, (obj, path, kids) in before.items():
        now = after.get(oid)
        if now is None:
            kids2 = children(obj)
        else:
            kids2 = now[2]
        d1 = {lab_key(l): v for l, v in kids}
        d2 = {lab_key(l): v for l, v in kids2}
        for lab in list(d1) + [x for x in d2 if x not in d1]:
            if lab not in d1 or lab not in d2 or not same_value(d1[lab], d2[lab]):
                out.append((obj, path, lab, d1.get(lab), d2.get(lab)))
    return out


def lab_key(lab):
    if isinstance(lab, tuple) and isinstance(lab[1], Sym):
        return ("k", id(lab[1]))
    return lab


def clone(obj, memo=None):
    """Copy a state graph (proxies of values are immutable, buffers copied)."""
    if memo is None:
        memo = {}
    if id(obj) in memo:
        return memo[id(obj)][0]
    if isinstance(obj, types.FunctionType):
        # closures over mutable state are shared between copies
        return obj
    if isinstance(obj, types.MethodType):
        res = types.MethodType(obj.__func__, clone(obj.__self__, memo))
        memo[id(obj)] = (res, obj)
        return res
    if is_atom(obj):
        return obj
    if isinstance(obj, SBytes):
        res = obj.copy()
        memo[id(obj)] = (res, obj)
        return res
    if isinstance(obj, SSeq):
        res = obj.__deepcopy__(memo)
        memo[id(obj)] = (res, obj)
        return res
    if isinstance(obj, SMap):
        res = SMap(obj.has_base, obj.val_base, obj.default, obj.keys_seq, obj.n, obj.tag, obj.name)
        memo[id(obj)] = (res, obj)
        res.overlay = [(k, clone(v, memo) if v is not SMap.MISSING else v) for k, v in obj.overlay]
        res.cache = [(k, clone(v, memo)) for k, v in obj.cache]
        return res
    if isinstance(obj, Sym):
        return obj
    if isinstance(obj, dict):
        if hasattr(obj, "default_factory"):
            res = type(obj)(obj.default_factory)
        else:
            res = type(obj)()
        memo[id(obj)] = (res, obj)
        if type(obj) is VDict and obj.vc is not None:
            res.vc = clone(obj.vc, memo)
            return res
        for k, v in obj.items():
            res[clone(k, memo) if isinstance(k, tuple) else k] = clone(v, memo)
        return res
    if isinstance(obj, list):
        res = type(obj)()
        memo[id(obj)] = (res, obj)
        res.extend(clone(v, memo) for v in obj)
        return res
    if isinstance(obj, tuple):
        vals = [clone(v, memo) for v in obj]
        res = type(obj)(*vals) if hasattr(obj, "_fields") else tuple(vals)
        memo[id(obj)] = (res, obj)
        return res
    if isinstance(obj, collections.deque):
        res = collections.deque()
        memo[id(obj)] = (res, obj)
        res.extend(clone(v, memo) for v in obj)
        return res
    if isinstance(obj, threading.Condition):
        res = threading.Condition(clone(obj._lock, memo))
        memo[id(obj)] = (res, obj)
        return res
    if type(obj) is _LOCK:
        res = _LOCK_NEW()
        memo[id(obj)] = (res, obj)
        return res
    if isinstance(obj, (set, frozenset)):
        return type(obj)(obj)
    if isinstance(obj, bytearray):
        res = bytearray(obj)
        memo[id(obj)] = (res, obj)
        return res
    if hasattr(obj, "__dict__"):
        res = type(obj).__new__(type(obj))
        memo[id(obj)] = (res, obj)
        for k, v in obj.__dict__.items():
            res.__dict__[k] = clone(v, memo)
        return res
    return obj
