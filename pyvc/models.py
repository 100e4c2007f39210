"""Trusted contracts of the standard library (what CPython code means on
symbolic values).  Everything here is an assumption listed in the evidence."""
import builtins
import json as _json
import math
import os as _os
import struct as _struct
import time as _time
import typing
import zlib as _zlib
import enum
import collections
import z3

from . import core
from .core import PathEnd, Unsupported
from .sym import (
    And, Ite, Not, Or, SBool, SBytes, SInt, SMap, SNum, SRange, SReal, SSeq, SStr, Sym, VDict,
    TOSTR_I, bytes_eq, byte_term, concrete_int, frac_ceil, frac_floor, has_sym, is_byteslike, iv, lift_bytes,
    mk, num, pytype, rv, same, to_r, zb, zbool, zint, zstr, INTOF,
)

TABLE = {}
USED = set()


def model(*funcs):
    def deco(fn):
        for f in funcs:
            TABLE[id(f)] = (f, fn)
        return fn

    return deco


def lookup(f):
    try:
        hit = TABLE.get(id(f))
    except TypeError:
        return None
    if hit is not None and hit[0] is f:
        return hit[1]
    if getattr(f, "__name__", "") == "from_bytes" and getattr(f, "__self__", None) is int:
        return m_from_bytes
    return None


def use(name):
    USED.add(name)


# -- builtins ---------------------------------------------------------------
@model(len)
def m_len(x):
    if isinstance(x, (SBytes, SSeq, SMap)):
        return x.length()
    if isinstance(x, SStr):
        return mk(z3.Length(x.t))
    if isinstance(x, Sym):
        raise TypeError("object has no len()")
    return len(x)


@model(isinstance)
def m_isinstance(x, cls):
    if isinstance(x, Sym):
        tp = x.pytype
        if isinstance(cls, tuple):
            return any(m_isinstance(x, c) for c in cls)
        if cls is x.__class__:
            return True
        try:
            return issubclass(tp, cls)
        except TypeError:
            return isinstance(x, cls)
    return isinstance(x, cls)


@model(issubclass)
def m_issubclass(a, b):
    return issubclass(a, b)


def m_type(*args):
    if len(args) == 1:
        return pytype(args[0])
    return type(*args)


TABLE[id(type)] = (type, m_type)


def trunc(t):
    c = core.CUR
    return c.ite(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


@model(int)
def m_int(x=0, *args):
    if isinstance(x, (SInt,)):
        return x
    if isinstance(x, SBool):
        return mk(z3.If(x.t, iv(1), iv(0)))
    if isinstance(x, SReal):
        return mk(trunc(x.t))
    if isinstance(x, SStr):
        # int(str(i)) == i; anything else may raise
        c = core.CUR
        n = INTOF(x.t)
        ok = x.t == TOSTR_I(n)
        if z3.is_app(x.t) and x.t.decl().eq(TOSTR_I):
            return mk(x.t.arg(0))
        if c.branch(ok):
            return mk(n)
        if c.branch(z3.Bool(c.fresh_name("int_parse_fails"))):
            raise ValueError("invalid literal for int()")
        return mk(z3.Int(c.fresh_name("int_parse")))
    if isinstance(x, Sym):
        raise TypeError("int() argument must be a string or a number")
    return int(x, *args)


@model(float)
def m_float(x=0.0):
    if isinstance(x, SReal):
        return x
    if isinstance(x, (SInt, SBool)):
        k, t = num(x)
        return SReal(z3.ToReal(t))
    if isinstance(x, SStr):
        c = core.CUR
        if c.branch(z3.Bool(c.fresh_name("float_parse_fails"))):
            raise ValueError("could not convert string to float")
        return SReal(z3.Real(c.fresh_name("float_parse")))
    if isinstance(x, Sym):
        raise TypeError("float() argument must be a string or a number")
    return float(x)


@model(bool)
def m_bool(x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, SNum):
        return mk(zb(x))
    return bool(x)


@model(str)
def m_str(x="", *args):
    from .runtime import to_str

    if args:
        return str(x, *args)
    return to_str(x)


@model(repr)
def m_repr(x):
    if isinstance(x, Sym) or has_sym(x):
        return SStr(z3.String(core.CUR.fresh_name("repr_of")))
    return repr(x)


@model(abs)
def m_abs(x):
    return abs(x)


def minmax(is_min, args, key=None, default=core):
    if len(args) == 1:
        args = list(args[0])
        if not args:
            if default is not core:
                return default
            raise ValueError("empty sequence")
    if key is not None and has_sym(args):
        raise Unsupported("min/max key")
    if not has_sym(args):
        kw = {} if key is None else {"key": key}
        return (min if is_min else max)(args, **kw)
    best = args[0]
    for x in args[1:]:
        cond = (x < best) if is_min else (x > best)
        best = Ite(cond, x, best)
    return best


@model(min)
def m_min(*args, key=None, default=core):
    return minmax(True, args, key, default)


@model(max)
def m_max(*args, key=None, default=core):
    return minmax(False, args, key, default)


@model(sum)
def m_sum(xs, start=0):
    for x in (list(xs) if not isinstance(xs, SSeq) else xs):
        start = start + x
    return start


@model(all)
def m_all(xs):
    for x in xs:
        if not x:
            return False
    return True


@model(any)
def m_any(xs):
    for x in xs:
        if x:
            return True
    return False


@model(range)
def m_range(*args):
    if not has_sym(list(args)):
        return range(*args)
    if len(args) == 1:
        lo, hi, step = 0, args[0], 1
    elif len(args) == 2:
        lo, hi, step = args[0], args[1], 1
    else:
        lo, hi, step = args
    if step != 1:
        raise Unsupported("range with a step")
    for a in (lo, hi):
        if not isinstance(a, (int, SInt, SBool)):
            raise TypeError("cannot be interpreted as an integer")
    lo_c, hi_c = concrete_int(lo), concrete_int(hi)
    if lo_c is not None and hi_c is not None:
        return range(lo_c, hi_c)
    return SRange(zint(lo), zint(hi), tag=("range", hi))


@model(enumerate)
def m_enumerate(xs, start=0):
    if isinstance(xs, SSeq) and not xs.tail:
        base = xs
        return SSeq(xs.n, lambda i: (mk(i + zint(start)), base.base_at(i)), xs.tag)
    return enumerate(xs, start)


@model(zip)
def m_zip(*xs, **kw):
    if any(isinstance(x, SSeq) for x in xs):
        if all(isinstance(x, SSeq) and not x.tail for x in xs) and all(
            core.CUR.entails(x.n == xs[0].n) for x in xs
        ):
            return SSeq(xs[0].n, lambda i: tuple(x.base_at(i) for x in xs), xs[0].tag)
        raise Unsupported("zip of symbolic lists")
    return zip(*xs, **kw)


@model(list)
def m_list(x=()):
    if isinstance(x, SMap):
        x = x.keys()
    if isinstance(x, SSeq):
        res = x.copy()
        res.kind = "list"
        return res
    return list(x)


@model(tuple)
def m_tuple(x=()):
    if isinstance(x, SSeq):
        res = x.copy()
        res.kind = "tuple"
        return res
    return tuple(x)


@model(dict)
def m_dict(*args, **kw):
    if args and isinstance(args[0], SMap):
        if kw:
            raise Unsupported("dict of a symbolic mapping")
        from .heap import clone

        src = args[0]
        res = SMap(src.has_base, src.val_base, None, src.keys_seq, src.n, src.tag, src.name)
        res.overlay = list(src.overlay)
        res.cache = list(src.cache)
        return res
    if not args and not kw and core.CUR is not None:
        return VDict()
    return dict(*args, **kw)


@model(collections.defaultdict)
def m_defaultdict(*args, **kw):
    c = core.CUR
    if c is None or not c.symbolic:
        return collections.defaultdict(*args, **kw)
    res = VDict()
    if args and args[0] is not None:
        res.default_factory = args[0]
    if len(args) > 1 and isinstance(args[1], SMap):
        res.vc = m_dict(args[1])
        res.vc.default = res.default_factory
    elif len(args) > 1:
        dict.update(res, args[1])
    dict.update(res, kw)
    return res


@model(sorted)
def m_sorted(x, **kw):
    if isinstance(x, SSeq) or has_sym(x):
        raise Unsupported("sorted")
    return sorted(x, **kw)


class SeqIter:
    """iter() of a symbolic list; knows the list while nothing was taken."""

    def __init__(self, seq):
        self.seq = seq
        self.it = None

    def __iter__(self):
        return self

    def __next__(self):
        if self.it is None:
            self.it = iter(self.seq)
        return next(self.it)


@model(iter)
def m_iter(x, *a):
    if isinstance(x, SMap) and not a:
        x = x.keys()
    if isinstance(x, SSeq) and not a:
        return SeqIter(x)
    return iter(x, *a)


@model(hash)
def m_hash(x):
    return hash(x)


@model(bytes)
def m_bytes(*args):
    if args and isinstance(args[0], SBytes):
        return SBytes(args[0].n, args[0].f, "bytes")
    if args and isinstance(args[0], (SInt,)):
        if core.CUR.branch(args[0].t < 0):
            raise ValueError("negative count")
        return SBytes(args[0].t, lambda j: iv(0), "bytes")
    if args and has_sym(args[0]):
        items = list(args[0])
        return items_bytes(items, "bytes")
    return bytes(*args)


@model(bytearray)
def m_bytearray(*args):
    """Always the symbolic representation: code mutates it in place."""
    if not args:
        return SBytes(iv(0), lambda j: iv(0), "bytearray")
    x = args[0]
    if isinstance(x, (int, SInt)) and not isinstance(x, bool):
        if core.CUR.branch(zint(x) < 0):
            raise ValueError("negative count")
        return SBytes(zint(x), lambda j: iv(0), "bytearray")
    if is_byteslike(x):
        y = lift_bytes(x)
        return SBytes(y.n, y.f, "bytearray")
    if isinstance(x, (list, tuple)):
        return items_bytes(list(x), "bytearray")
    if isinstance(x, str):
        return lift_bytes(bytearray(*args))
    if isinstance(x, float) or isinstance(x, SReal):
        raise TypeError("cannot convert 'float' object to bytearray")
    raise Unsupported("bytearray()")


def items_bytes(items, kind):
    terms = []
    for x in items:
        t = zint(x)
        if core.CUR.branch(z3.Or(t < 0, t > 255)):
            raise ValueError("byte must be in range(0, 256)")
        terms.append(t)

    def fun(j):
        js = z3.simplify(j)
        if z3.is_int_value(js):
            k = js.as_long()
            return terms[k] if 0 <= k < len(terms) else iv(0)
        res = iv(0)
        for k in range(len(terms) - 1, -1, -1):
            res = z3.If(js == k, terms[k], res)
        return res

    return SBytes(iv(len(terms)), fun, kind)


@model(memoryview)
def m_memoryview(x):
    if isinstance(x, SBytes):
        raise Unsupported("memoryview of symbolic bytes")
    return memoryview(x)


@model(divmod)
def m_divmod(a, b):
    return (a // b, a % b)


@model(getattr)
def m_getattr(o, n, *d):
    return getattr(o, n, *d)


@model(hasattr)
def m_hasattr(o, n):
    if isinstance(o, Sym):
        return hasattr(o.pytype, n)
    return hasattr(o, n)


@model(setattr)
def m_setattr(o, n, v):
    return setattr(o, n, v)


@model(callable)
def m_callable(x):
    return callable(x) and not isinstance(x, Sym)


@model(print)
def m_print(*_, **__):
    return None


@model(typing.cast)
def m_cast(_, x):
    return x


@model(id)
def m_id(x):
    return id(x)


# -- math ---------------------------------------------------------------------
def real_of(x):
    n = num(x)
    if n is None:
        raise TypeError("must be real number")
    return n


@model(math.floor)
def m_floor(x):
    if not isinstance(x, Sym):
        return math.floor(x)
    k, t = real_of(x)
    if k != "i" and frac_floor(x) is not None:
        return mk(frac_floor(x))
    return mk(t if k == "i" else z3.ToInt(t))


@model(math.ceil)
def m_ceil(x):
    if not isinstance(x, Sym):
        return math.ceil(x)
    k, t = real_of(x)
    if k != "i" and frac_ceil(x) is not None:
        return mk(frac_ceil(x))
    return mk(t if k == "i" else -z3.ToInt(-t))


@model(math.trunc)
def m_trunc(x):
    if not isinstance(x, Sym):
        return math.trunc(x)
    k, t = real_of(x)
    return mk(t if k == "i" else trunc(t))


@model(math.modf)
def m_modf(x):
    if not isinstance(x, Sym):
        return math.modf(x)
    k, t = real_of(x)
    t = to_r(k, t)
    whole = z3.ToReal(trunc(t))
    return (SReal(z3.simplify(t - whole)), SReal(z3.simplify(whole)))


@model(math.fabs)
def m_fabs(x):
    if not isinstance(x, Sym):
        return math.fabs(x)
    k, t = real_of(x)
    t = to_r(k, t)
    return SReal(core.CUR.ite(t >= 0, t, -t))


@model(math.isnan, math.isinf)
def m_isnan(x):
    if isinstance(x, Sym):
        return False
    return math.isnan(x) or math.isinf(x)


TABLE[id(math.isnan)] = (math.isnan, lambda x: False if isinstance(x, Sym) else math.isnan(x))
TABLE[id(math.isinf)] = (math.isinf, lambda x: False if isinstance(x, Sym) else math.isinf(x))
TABLE[id(math.isfinite)] = (math.isfinite, lambda x: True if isinstance(x, Sym) else math.isfinite(x))


@model(round)
def m_round(x, nd=None):
    if not isinstance(x, Sym):
        return round(x, nd) if nd is not None else round(x)
    k, t = real_of(x)
    if nd is not None:
        raise Unsupported("round digits")
    if k == "i":
        return x
    fl = z3.ToInt(t)
    frac = t - z3.ToReal(fl)
    half = rv(0.5)
    return mk(z3.If(frac < half, fl, z3.If(frac > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1))))


# -- struct -------------------------------------------------------------------
INT_CODES = {
    "b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False),
    "i": (4, True), "I": (4, False), "l": (4, True), "L": (4, False),
    "q": (8, True), "Q": (8, False),
}
FLT_LIMIT = (2 ** 128) - (2 ** 103)
FLT32 = z3.Function("float32", z3.RealSort(), z3.RealSort())
_UF = {}


def uf(name, *sorts):
    key = (name,) + tuple(s.sexpr() for s in sorts)
    if key not in _UF:
        _UF[key] = z3.Function(name, *sorts)
    return _UF[key]


def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if isinstance(fmt, Sym):
        raise Unsupported("symbolic struct format")
    order, body = "@", fmt
    if fmt[:1] in "@=<>!":
        order, body = fmt[0], fmt[1:]
    big = order in ">!"
    codes = []
    i = 0
    while i < len(body):
        if body[i].isspace():
            i += 1
            continue
        cnt = ""
        while body[i].isdigit():
            cnt += body[i]
            i += 1
        ch = body[i]
        i += 1
        if ch in "sp" or ch == "x":
            raise Unsupported("struct code %s" % ch)
        codes.extend([ch] * (int(cnt) if cnt else 1))
    if order == "@" and len(codes) > 1:
        raise Unsupported("native alignment")
    if order == "@" and "f" in codes:
        raise Unsupported("native-order single precision (no overflow check)")
    return big, codes


def code_size(ch):
    if ch == "?":
        return 1
    if ch == "f":
        return 4
    if ch == "d":
        return 8
    if ch in INT_CODES:
        return INT_CODES[ch][0]
    raise Unsupported("struct code %s" % ch)


def encode_one(big, ch, v):
    """Byte terms of one packed value; raises as struct does."""
    c = core.CUR
    n = code_size(ch)
    if ch == "?":
        if isinstance(v, Sym):
            b = zb(m_bool(v))
        else:
            b = z3.BoolVal(bool(v))
        return [z3.If(b, iv(1), iv(0))]
    if ch in INT_CODES:
        if not isinstance(v, (int, SInt, SBool)) or isinstance(v, float):
            raise _struct.error("required argument is not an integer")
        t = zint(v)
        signed = INT_CODES[ch][1]
        lo = -(2 ** (8 * n - 1)) if signed else 0
        hi = 2 ** (8 * n - 1) - 1 if signed else 2 ** (8 * n) - 1
        if c.branch(z3.Or(t < lo, t > hi)):
            raise _struct.error("'%s' format requires %d <= number <= %d" % (ch, lo, hi))
        ts = z3.simplify(t)
        if z3.is_int_value(ts):
            raw = _struct.pack((">" if big else "<") + ch, ts.as_long())
            out = [iv(x) for x in raw]
            # the concrete bytes still need the decode axiom
            if n > 1 or signed:
                dec = decode_fn(big, ch)
                c.add(dec(*out) == ts)
            return out
        if n == 1 and not signed:
            return [t]
        if c.opts.get("exact_struct"):
            u = z3.If(t < 0, t + 2 ** (8 * n), t) if signed else t
            # witness digits: u = sum d_k 256^k, 0 <= d_k <= 255
            key = ("digits", n, z3.simplify(u).get_id())
            if key not in c.memo:
                ds = [z3.Int(c.fresh_name("dig")) for _ in range(n)]
                c.add(z3.And([z3.And(d >= 0, d <= 255) for d in ds]))
                c.add(u == z3.Sum([d * (256 ** (n - 1 - k)) for k, d in enumerate(ds)]))
                c.memo[key] = (ds, u)
            ds = c.memo[key][0]
            out = ds if big else list(reversed(ds))
        else:
            out = enc_terms(big, ch, ts, z3.IntSort(), n)
        dec = decode_fn(big, ch)
        c.add(dec(*out) == ts)
        return out
    # floats
    nm = num(v)
    if nm is None:
        raise _struct.error("required argument is not a float")
    if nm[0] == "n":
        raw = _struct.pack((">" if big else "<") + ch, nm[1])
        return [iv(x) for x in raw]
    t = to_r(*nm)
    if ch == "f":
        if c.branch(z3.Or(t >= FLT_LIMIT, t <= -FLT_LIMIT)):
            raise OverflowError("float too large to pack with f format")
        val = FLT32(t)
        c.add(FLT32(val) == val)
    else:
        if isinstance(v, (int, SInt)) and not isinstance(v, bool):
            if c.branch(z3.Or(t >= 2 ** 1024, t <= -(2 ** 1024))):
                raise _struct.error("required argument is not a float")
        val = t
    vs = z3.simplify(val)
    out = enc_terms(big, ch, vs, z3.RealSort(), n)
    c.add(decode_fn(big, ch)(*out) == vs)
    return out


def enc_terms(big, ch, t, sort, n):
    """Byte j of the wire image; little-endian is the reversed big-endian."""
    out = []
    for j in range(n):
        fn = uf("enc_%s_%d" % (ch, j), sort, z3.IntSort())
        out.append(byte_term(fn(t)))
    return out if big else list(reversed(out))


def decode_fn(big, ch):
    """decode function over the bytes in buffer order."""
    n = code_size(ch)
    sort = z3.RealSort() if ch in "fd" else z3.IntSort()
    fn = uf("dec_%s" % ch, *([z3.IntSort()] * n + [sort]))
    if big:
        return lambda *bs: fn(*bs)
    return lambda *bs: fn(*reversed(bs))


def decode_one(big, ch, bs):
    c = core.CUR
    n = code_size(ch)
    bs = [z3.simplify(b) for b in bs]
    if ch == "?":
        return mk(bs[0] != 0)
    if all(z3.is_int_value(b) for b in bs):
        raw = bytes(b.as_long() for b in bs)
        return _struct.unpack((">" if big else "<") + ch, raw)[0]
    if ch == "B":
        return mk(bs[0])
    t = decode_fn(big, ch)(*bs)
    key = ("dec", t.get_id())
    if key not in c.memo:
        c.memo[key] = (True, t)
        if ch in INT_CODES:
            signed = INT_CODES[ch][1]
            lo = -(2 ** (8 * n - 1)) if signed else 0
            hi = 2 ** (8 * n - 1) - 1 if signed else 2 ** (8 * n) - 1
            c.add(z3.And(t >= lo, t <= hi))
            if c.opts.get("exact_struct"):
                order = bs if big else list(reversed(bs))
                u = z3.Sum([d * (256 ** (n - 1 - k)) for k, d in enumerate(order)])
                c.add(t == (z3.If(u > hi, u - 2 ** (8 * n), u) if signed else u))
            else:
                # encode(decode(bytes)) == bytes
                order = bs if big else list(reversed(bs))
                for j in range(n):
                    fn = uf("enc_%s_%d" % (ch, j), z3.IntSort(), z3.IntSort())
                    c.add(fn(t) == order[j])
        elif ch == "f":
            c.add(FLT32(t) == t)
    return mk(t)


@model(_struct.pack)
def m_pack(fmt, *vals):
    use("struct.pack/unpack/pack_into")
    big, codes = parse_fmt(fmt)
    if len(codes) != len(vals):
        raise _struct.error("pack expected %d items" % len(codes))
    terms = []
    for ch, v in zip(codes, vals):
        terms.extend(encode_one(big, ch, v))
    return term_bytes(terms, "bytes")


def term_bytes(terms, kind):
    def fun(j):
        js = z3.simplify(j)
        if z3.is_int_value(js):
            k = js.as_long()
            return terms[k] if 0 <= k < len(terms) else iv(0)
        res = iv(0)
        for k in range(len(terms) - 1, -1, -1):
            res = z3.If(js == k, terms[k], res)
        return res

    return SBytes(iv(len(terms)), fun, kind)


@model(_struct.pack_into)
def m_pack_into(fmt, buf, off, *vals):
    use("struct.pack/unpack/pack_into")
    big, codes = parse_fmt(fmt)
    if len(codes) != len(vals):
        raise _struct.error("pack_into expected %d items" % len(codes))
    if not isinstance(buf, SBytes):
        if isinstance(buf, bytearray):
            raise Unsupported("pack_into a native bytearray")
        raise TypeError("read-write bytes-like object required")
    if buf.kind != "bytearray":
        raise TypeError("read-write bytes-like object required")
    c = core.CUR
    size = sum(code_size(ch) for ch in codes)
    o = zint(off)
    if c.branch(o < 0):
        if c.branch(o + buf.n < 0):
            raise _struct.error("offset out of range")
        o = z3.simplify(o + buf.n)
    if c.branch(o + size > buf.n):
        raise _struct.error("pack_into requires a buffer of at least %d bytes" % size)
    terms = []
    for ch, v in zip(codes, vals):
        terms.extend(encode_one(big, ch, v))
    of = buf.f

    def fun(j):
        res = of(j)
        for k in range(len(terms) - 1, -1, -1):
            res = z3.If(j == o + k, terms[k], res)
        return res

    buf.f = fun


@model(_struct.unpack)
def m_unpack(fmt, data):
    use("struct.pack/unpack/pack_into")
    big, codes = parse_fmt(fmt)
    size = sum(code_size(ch) for ch in codes)
    d = lift_bytes(data)
    if core.CUR.branch(d.n != size):
        raise _struct.error("unpack requires a buffer of %d bytes" % size)
    return unpack_at(big, codes, d, iv(0))


def unpack_at(big, codes, d, off):
    out = []
    for ch in codes:
        n = code_size(ch)
        bs = [byte_term(z3.simplify(d.at(z3.simplify(off + k)))) for k in range(n)]
        out.append(decode_one(big, ch, bs))
        off = off + n
    return tuple(out)


@model(_struct.unpack_from)
def m_unpack_from(fmt, data, offset=0):
    big, codes = parse_fmt(fmt)
    size = sum(code_size(ch) for ch in codes)
    d = lift_bytes(data)
    o = zint(offset)
    c = core.CUR
    if c.branch(o < 0):
        o = o + d.n
    if c.branch(z3.Or(o < 0, o + size > d.n)):
        raise _struct.error("unpack_from requires a buffer of at least %d bytes" % size)
    return unpack_at(big, codes, d, o)


@model(_struct.calcsize)
def m_calcsize(fmt):
    return _struct.calcsize(fmt)


def m_from_bytes(data, byteorder="big", *, signed=False):
    if isinstance(data, (bytes, bytearray)):
        return int.from_bytes(data, byteorder, signed=signed)
    d = lift_bytes(data)
    n = concrete_int(mk(d.n))
    codes = {(1, False): "B", (2, False): "H", (4, False): "I", (8, False): "Q",
             (1, True): "b", (2, True): "h", (4, True): "i", (8, True): "q"}
    if n is None or (n, bool(signed)) not in codes:
        raise Unsupported("int.from_bytes")
    return unpack_at(byteorder == "big", [codes[(n, bool(signed))]], d, iv(0))[0]



def int_to_bytes(x, length=1, byteorder="big", *, signed=False):
    codes = {(1, False): "B", (2, False): "H", (4, False): "I", (8, False): "Q",
             (1, True): "b", (2, True): "h", (4, True): "i", (8, True): "q"}
    if (length, bool(signed)) not in codes:
        raise Unsupported("int.to_bytes")
    try:
        return term_bytes(
            encode_one(byteorder == "big", codes[(length, bool(signed))], x), "bytes"
        )
    except _struct.error as exc:
        raise OverflowError(str(exc)) from exc


# -- crc ----------------------------------------------------------------------
@model(_zlib.crc32)
def m_crc32(data, value=0):
    use("zlib.crc32")
    if isinstance(data, (bytes, bytearray)) and not isinstance(value, Sym):
        data = lift_bytes(data)
    d = lift_bytes(data)
    if isinstance(value, Sym) or value != 0:
        init = zint(value)
    else:
        init = iv(0)
    c = core.CUR
    snap = SBytes(d.n, d.f, "bytes")
    t = z3.Int(c.fresh_name("crc"))
    c.add(z3.And(t >= 0, t <= 0xFFFFFFFF))
    for (d2, init2, t2) in c.crcs:
        # functional: equal inputs give equal results (contrapositive, skolem)
        j = z3.Int(c.fresh_name("crc_wit"))
        c.add(
            z3.Or(
                t == t2, snap.n != d2.n, init != init2,
                z3.And(j >= 0, j < snap.n, snap.f(j) != d2.f(j)),
            )
        )
    c.crcs.append((snap, init, t))
    return SInt(t)


# -- time, json, os -----------------------------------------------------------
def world_time():
    c = core.CUR
    t = z3.Real(c.fresh_name("now"))
    prev = getattr(c, "last_now", None)
    if prev is not None:
        c.add(t >= prev)
    else:
        c.add(t >= 0)
    c.last_now = t
    return SReal(t)


@model(_time.time, _time.monotonic)
def m_time():
    if core.CUR is None or not core.CUR.symbolic:
        return _time.time()
    return world_time()


@model(_time.sleep)
def m_sleep(amount):
    use("time.sleep")
    if isinstance(amount, (SNum,)):
        k, t = num(amount)
        if core.CUR.branch(t < 0):
            raise ValueError("sleep length must be non-negative")
    elif amount < 0:
        raise ValueError("sleep length must be non-negative")
    return None


@model(_time.ctime)
def m_ctime(*_):
    return "ctime"


JSON_OF = {}


@model(_json.dumps)
def m_dumps(obj, **kw):
    if has_sym(obj, 8) or kw.get("cls") is not None:
        res = SStr(z3.String(core.CUR.fresh_name("json")))
        core.CUR.memo[("json", id(res))] = (obj, res)
        hook = getattr(core.CUR, "json_hook", None)
        if hook is not None:
            hook(obj, kw, res)
        return res
    return _json.dumps(obj, **kw)


def percent_format(a, b):
    return SStr(z3.String(core.CUR.fresh_name("fmt")))


# functions that build containers of whatever they are given
for _f in (collections.OrderedDict, collections.deque):
    TABLE[id(_f)] = (_f, _f)
del TABLE[id(collections.deque)]
