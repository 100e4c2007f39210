"""Shared generators and oracles of the contracts."""
from fractions import Fraction

# independent table of the wire types: name -> (kind, size, signed)
WIRE = {
    "BOOLEAN": ("bool", 1, False), "INT8": ("int", 1, True), "UINT8": ("int", 1, False),
    "INT16": ("int", 2, True), "UINT16": ("int", 2, False), "INT32": ("int", 4, True),
    "UINT32": ("int", 4, False), "INT64": ("int", 8, True), "UINT64": ("int", 8, False),
    "FLOAT": ("float", 4, True), "DOUBLE": ("float", 8, True),
}
CODES = {
    "BOOLEAN": "?", "INT8": "b", "UINT8": "B", "INT16": "h", "UINT16": "H", "INT32": "i",
    "UINT32": "I", "INT64": "q", "UINT64": "Q", "FLOAT": "f", "DOUBLE": "d",
}
PYT = {"bool": bool, "int": int, "float": float}
FLT_MAX = (2 ** 128) - (2 ** 104)
FLT_OVER = (2 ** 128) - (2 ** 103)


def wire(prim):
    return WIRE[prim.name]


def bounds(prim):
    _, size, signed = WIRE[prim.name]
    bits = 8 * size
    if signed:
        return -(2 ** (bits - 1)), 2 ** (bits - 1) - 1
    return 0, 2 ** bits - 1


def primitives():
    from vtelem.enums.primitive import Primitive

    return list(Primitive)


def any_prim(v, name="type", only=None):
    opts = primitives()
    if only:
        opts = [p for p in opts if p.name in only]
    return v.choose(name, opts)


def kind_of(x):
    """bool/int/float/other kind of a native or symbolic value."""
    from pyvc.sym import pytype

    t = pytype(x)
    return {bool: "bool", int: "int", float: "float"}.get(t, "other")


def fits(v, prim, val):
    """Is the value representable in this type (truth value)?"""
    kind, _, _ = WIRE[prim.name]
    k = kind_of(val)
    if kind == "bool":
        return k == "bool"
    if kind == "int":
        if k not in ("int", "bool"):
            return False
        lo, hi = bounds(prim)
        num = val if k == "int" else v.Ite(val, 1, 0)
        return v.And(num >= lo, num <= hi)
    if k != "float":
        return False
    if prim.name == "FLOAT":
        return v.And(val < FLT_OVER, val > -FLT_OVER)
    return True


def value_of(v, prim, name="val"):
    """An arbitrary value of the type."""
    kind, _, _ = WIRE[prim.name]
    if kind == "bool":
        return v.bool(name)
    if kind == "int":
        lo, hi = bounds(prim)
        return v.int(name, lo, hi)
    if prim.name == "FLOAT":
        val = v.real(name, -FLT_MAX, FLT_MAX)
        return val
    return v.real(name)


def any_scalar(v, name="arg"):
    """A value of any kind a caller may pass."""
    k = v.choose(name + ".kind", ["bool", "int", "float", "str", "none"])
    if k == "bool":
        return v.bool(name)
    if k == "int":
        return v.int(name)
    if k == "float":
        return v.real(name)
    if k == "str":
        return v.str(name)
    return None


def type_primitive(v, prim, name="prim", cb=None):
    from vtelem.classes.type_primitive import TypePrimitive

    res = TypePrimitive(prim, cb)
    res.data = value_of(v, prim, name + ".data")
    res.last_set = v.real(name + ".last_set")
    return res


def same_kind(a, b):
    return kind_of(a) == kind_of(b)


def as_num(v, x):
    k = kind_of(x)
    return v.Ite(x, 1, 0) if k == "bool" else x


def free(v, lock):
    """Is an optional lock free (nobody, not even this thread, holds it)?"""
    if v.symbolic:
        return lock.lock.depth == 0
    import threading

    got = []

    def probe():
        got.append(lock.lock.acquire(blocking=False))
        if got[0]:
            lock.lock.release()

    thread = threading.Thread(target=probe)
    thread.start()
    thread.join()
    return got == [True]
