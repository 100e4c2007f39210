"""Proxies for symbolic Python values (CPython supplies everything else)."""
import enum
from fractions import Fraction
import math
import z3

from . import core
from .core import Unsupported

INF = float("inf")


def ctx():
    return core.CUR


class Sym:
    """Base of every symbolic value."""

    pytype = object

    def __hash__(self):
        return id(self)

    def __index__(self):
        raise Unsupported("__index__ of %s" % type(self).__name__)

    def __str__(self):
        raise Unsupported("str() of %s" % type(self).__name__)

    def __repr__(self):
        return "<%s>" % type(self).__name__

    def __format__(self, spec):
        raise Unsupported("format() of %s" % type(self).__name__)

    def __bytes__(self):
        raise Unsupported("bytes() of %s" % type(self).__name__)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


# --------------------------------------------------------------------------
def iv(x):
    return z3.IntVal(x)


def rv(x):
    fr = Fraction(x)
    return z3.RealVal("%d/%d" % (fr.numerator, fr.denominator))


def num(x):
    """(kind, term) of a number-like value, or None. kinds: i, r, n(on-finite)."""
    if isinstance(x, SInt):
        return "i", x.t
    if isinstance(x, SBool):
        return "i", z3.If(x.t, iv(1), iv(0))
    if isinstance(x, SReal):
        return "r", x.t
    if isinstance(x, z3.ArithRef):
        return ("i" if x.is_int() else "r"), x
    if isinstance(x, bool):
        return "i", iv(int(x))
    if isinstance(x, int):
        return "i", iv(int(x))
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            return "n", x
        return "r", rv(x)
    return None


def mk(term):
    """Wrap a z3 term; numerals come back as native values."""
    if isinstance(term, (bool, int, float, str)):
        return term
    s = z3.simplify(term)
    if z3.is_int_value(s):
        return s.as_long()
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    if z3.is_string_value(s):
        return s.as_string()
    sort = s.sort()
    if sort == z3.IntSort():
        return SInt(s)
    if sort == z3.BoolSort():
        return SBool(s)
    if sort == z3.RealSort():
        return SReal(s)
    if sort == z3.StringSort():
        return SStr(s)
    raise Unsupported("sort %s" % sort)


def to_r(kind, term):
    return z3.ToReal(term) if kind == "i" else term


def arith(op, a, b):
    na, nb = num(a), num(b)
    if na is None or nb is None:
        return NotImplemented
    if na[0] == "n" or nb[0] == "n":
        raise Unsupported("arithmetic with nan/inf")
    if na[0] == "i" and nb[0] == "i":
        x, y = na[1], nb[1]
    else:
        x, y = to_r(*na), to_r(*nb)
    if op == "+":
        res = x + y
    elif op == "-":
        res = x - y
    else:
        res = x * y
    if na[0] == "i" and nb[0] == "i":
        return mk(res)
    return SReal(z3.simplify(res))


def divide(op, a, b):
    na, nb = num(a), num(b)
    if na is None or nb is None:
        return NotImplemented
    if na[0] == "n" or nb[0] == "n":
        raise Unsupported("arithmetic with nan/inf")
    if ctx().branch(nb[1] == (0 if nb[0] == "i" else rv(0))):
        raise ZeroDivisionError("division by zero")
    if op == "/":
        res = SReal(z3.simplify(to_r(*na) / to_r(*nb)))
        if na[0] == "i" and nb[0] == "i" and not z3.is_rational_value(res.t):
            res.frac = (na[1], nb[1])
        return res
    if na[0] == "i" and nb[0] == "i":
        x, y = na[1], nb[1]
        fl = floordiv(x, y)
        return mk(fl if op == "//" else x - y * fl)
    fl = z3.ToReal(z3.ToInt(to_r(*na) / to_r(*nb)))
    if op == "//":
        return SReal(fl)
    return SReal(to_r(*na) - to_r(*nb) * fl)


def floordiv(x, y):
    ys = z3.simplify(y)
    if z3.is_int_value(ys):
        if ys.as_long() > 0:
            return x / ys
        return (-x) / (-ys)
    c = ctx()
    if c.branch(ys < 0):
        x, ys = -x, z3.simplify(-ys)
    return quotient(z3.simplify(x), ys)


def quotient(x, y):
    """floor(x / y) for y > 0, by its defining inequalities (one term per x, y)."""
    c = ctx()
    key = ("quot", x.get_id(), y.get_id())
    if key in c.memo:
        return c.memo[key][0]
    q = z3.Int(c.fresh_name("quotient"))
    c.add(z3.And(q * y <= x, x < q * y + y))
    c.memo[key] = (q, x, y)
    same_y = c.memo.setdefault(("quots", y.get_id()), (y, []))[1]
    for other in same_y:
        # products by one positive number keep the order of integers
        c.add(z3.Implies(q > other, q * y >= other * y + y))
        c.add(z3.Implies(other > q, other * y >= q * y + y))
        c.add(z3.Implies(q + other > 0, q * y + other * y >= y))
        c.add(z3.Implies(q + other < 0, q * y + other * y <= -y))
    same_y.append(q)
    return q


def frac_floor(x):
    """floor of a quotient of integers, None for other reals."""
    frac = getattr(x, "frac", None)
    return None if frac is None else floordiv(*frac)


def frac_ceil(x):
    frac = getattr(x, "frac", None)
    return None if frac is None else -floordiv(-frac[0], frac[1])


def compare(op, a, b):
    na, nb = num(a), num(b)
    if na is None or nb is None:
        if op == "==":
            return False
        if op == "!=":
            return True
        return NotImplemented
    if na[0] == "n" or nb[0] == "n":
        # one side non-finite: a finite stand-in decides
        x = na[1] if na[0] == "n" else 0.0
        y = nb[1] if nb[0] == "n" else 0.0
        return {
            "==": x == y, "!=": x != y, "<": x < y,
            "<=": x <= y, ">": x > y, ">=": x >= y,
        }[op]
    if na[0] == "i" and nb[0] == "i":
        x, y = na[1], nb[1]
    else:
        x, y = to_r(*na), to_r(*nb)
    return mk(
        {
            "==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y,
            "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y,
        }[op]()
    )


class SNum(Sym):
    """Shared numeric behaviour."""

    def __add__(self, o):
        return arith("+", self, o)

    def __radd__(self, o):
        return arith("+", o, self)

    def __sub__(self, o):
        return arith("-", self, o)

    def __rsub__(self, o):
        return arith("-", o, self)

    def __mul__(self, o):
        return arith("*", self, o)

    def __rmul__(self, o):
        if isinstance(o, (bytes, bytearray, list, str)):
            raise Unsupported("sequence repetition")
        return arith("*", o, self)

    def __truediv__(self, o):
        return divide("/", self, o)

    def __rtruediv__(self, o):
        return divide("/", o, self)

    def __floordiv__(self, o):
        return divide("//", self, o)

    def __rfloordiv__(self, o):
        return divide("//", o, self)

    def __mod__(self, o):
        return divide("%", self, o)

    def __rmod__(self, o):
        return divide("%", o, self)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __eq__(self, o):
        return compare("==", self, o)

    def __ne__(self, o):
        return compare("!=", self, o)

    def __lt__(self, o):
        return compare("<", self, o)

    def __le__(self, o):
        return compare("<=", self, o)

    def __gt__(self, o):
        return compare(">", self, o)

    def __ge__(self, o):
        return compare(">=", self, o)

    __hash__ = Sym.__hash__

    def __neg__(self):
        return arith("-", 0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        k, t = num(self)
        return mk(ctx().ite(t >= 0, t, -t))


def _pow2(x):
    return isinstance(x, int) and x > 0 and (x & (x - 1)) == 0


class SInt(SNum):
    """A symbolic integer (mathematical, as in Python)."""

    pytype = int

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def __index__(self):
        val = concrete_int(self)
        if val is None:
            raise Unsupported("a symbolic int where C code needs a number")
        return val

    def __int__(self):
        return self.__index__()

    def __and__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and o >= 0 and _pow2(o + 1):
            return mk(self.t % (o + 1))
        raise Unsupported("bitwise and")

    __rand__ = __and__

    def __lshift__(self, o):
        if isinstance(o, int) and o >= 0:
            return mk(self.t * (2 ** o))
        raise Unsupported("shift")

    def __rshift__(self, o):
        if isinstance(o, int) and o >= 0:
            return mk(self.t / (2 ** o))
        raise Unsupported("shift")

    def __or__(self, o):
        raise Unsupported("bitwise or")

    __ror__ = __or__

    def __xor__(self, o):
        raise Unsupported("bitwise xor")

    __rxor__ = __xor__

    def __invert__(self):
        return -1 - self

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            res = 1
            for _ in range(o):
                res = res * self
            return res
        raise Unsupported("power")

    def __rpow__(self, o):
        raise Unsupported("power")

    def bit_length(self):
        raise Unsupported("bit_length")

    def to_bytes(self, *args, **kwargs):
        from .models import int_to_bytes

        return int_to_bytes(self, *args, **kwargs)

    def is_integer(self):
        return True


class SBool(SNum):
    """A symbolic truth value."""

    pytype = bool

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().branch(self.t)

    def __index__(self):
        return 1 if ctx().branch(self.t) else 0

    __int__ = __index__

    def __and__(self, o):
        z = zbool_or_none(o)
        if z is None:
            return NotImplemented
        return mk(z3.And(self.t, z))

    __rand__ = __and__

    def __or__(self, o):
        z = zbool_or_none(o)
        if z is None:
            return NotImplemented
        return mk(z3.Or(self.t, z))

    __ror__ = __or__

    def __invert__(self):
        raise Unsupported("~ on a bool")

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mk(self.t == zterm_bool(o))
        return compare("==", self, o)

    def __ne__(self, o):
        if isinstance(o, (bool, SBool)):
            return mk(self.t != zterm_bool(o))
        return compare("!=", self, o)

    __hash__ = Sym.__hash__


class SReal(SNum):
    """A symbolic finite float, treated as a mathematical real."""

    pytype = float

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().branch(self.t != rv(0))

    def __float__(self):
        raise Unsupported("a symbolic float where C code needs a number")

    def __int__(self):
        raise Unsupported("int() of a symbolic float in C code")

    def is_integer(self):
        return mk(z3.ToReal(z3.ToInt(self.t)) == self.t)

    def __round__(self, nd=None):
        raise Unsupported("round")


def zterm_bool(x):
    return x.t if isinstance(x, SBool) else z3.BoolVal(bool(x))


def zbool_or_none(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return None


def zbool(x):
    """Any truth value as a z3 Bool (or native bool); no branching."""
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, SNum):
        k, t = num(x)
        return t != (0 if k == "i" else rv(0))
    return bool(x)


def zint(x):
    """An int-like value as a z3 Int term."""
    if isinstance(x, z3.ArithRef):
        return x
    n = num(x)
    if n is None or n[0] != "i":
        raise Unsupported("expected an integer, got %s" % type(x).__name__)
    return n[1]


def concrete_int(x):
    """A unique concrete value of an int-like, or None."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, SBool):
        return None
    if isinstance(x, SInt):
        s = z3.simplify(x.t)
        if z3.is_int_value(s):
            return s.as_long()
        c = ctx()
        key = ("ci", s.get_id(), len(c.pc))
        if key in c.memo:
            return c.memo[key][0]
        val = None
        if c._check() == z3.sat:
            m = c.solver.model().eval(s, model_completion=True)
            if z3.is_int_value(m) and c.entails(s == m):
                val = m.as_long()
        c.memo[key] = (val, s)
        return val
    return None


# --------------------------------------------------------------------------
class SStr(Sym):
    """A symbolic string (z3 sequence theory)."""

    pytype = str

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().branch(z3.Length(self.t) != 0)

    def __eq__(self, o):
        z = zstr_or_none(o)
        if z is None:
            return False
        return mk(self.t == z)

    def __ne__(self, o):
        z = zstr_or_none(o)
        if z is None:
            return True
        return mk(self.t != z)

    __hash__ = Sym.__hash__

    def __add__(self, o):
        z = zstr_or_none(o)
        if z is None:
            return NotImplemented
        return mk(z3.Concat(self.t, z))

    def __radd__(self, o):
        z = zstr_or_none(o)
        if z is None:
            return NotImplemented
        return mk(z3.Concat(z, self.t))

    def __contains__(self, o):
        return bool(mk(z3.Contains(self.t, zstr(o))))

    def startswith(self, o):
        return mk(z3.PrefixOf(zstr(o), self.t))

    def endswith(self, o):
        return mk(z3.SuffixOf(zstr(o), self.t))

    def lower(self):
        res = LOWER(self.t)
        ctx().add(LOWER(res) == res)
        return SStr(res)

    def upper(self):
        return SStr(UPPER(self.t))

    def strip(self):
        res = STRIP(self.t)
        ctx().add(STRIP(res) == res)
        return SStr(res)

    def isdigit(self):
        return mk(ISDIGIT(self.t))

    isdecimal = isnumeric = isdigit

    def encode(self, encoding="utf-8", errors="strict"):
        if encoding.lower().replace("-", "") != "utf8":
            raise Unsupported("encoding")
        return str_bytes(self.t)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(str, name):
            raise Unsupported("str.%s on a symbolic string" % name)
        raise AttributeError(name)


LOWER = z3.Function("py_lower", z3.StringSort(), z3.StringSort())
UPPER = z3.Function("py_upper", z3.StringSort(), z3.StringSort())
STRIP = z3.Function("py_strip", z3.StringSort(), z3.StringSort())
ISDIGIT = z3.Function("py_isdigit", z3.StringSort(), z3.BoolSort())
TOSTR_I = z3.Function("py_str_int", z3.IntSort(), z3.StringSort())
TOSTR_R = z3.Function("py_str_real", z3.RealSort(), z3.StringSort())
UTF8_LEN = z3.Function("utf8_len", z3.StringSort(), z3.IntSort())
UTF8_AT = z3.Function("utf8_at", z3.StringSort(), z3.IntSort(), z3.IntSort())
INTOF = z3.Function("py_int_of_str", z3.StringSort(), z3.IntSort())


def str_bytes(t):
    n = UTF8_LEN(t)
    ctx().add(n >= z3.Length(t))
    ctx().add((n == 0) == (z3.Length(t) == 0))
    return SBytes(n, lambda i: byte_term(UTF8_AT(t, i)), "bytes")


def byte_term(t):
    """Attach the range axiom of a byte-valued term instance."""
    c = ctx()
    key = ("byte", t.get_id())
    if key not in c.memo:
        c.memo[key] = (True, t)
        c.add(z3.And(t >= 0, t <= 255))
    return t


def zstr_or_none(x):
    if isinstance(x, SStr):
        return x.t
    if isinstance(x, enum.Enum) and not isinstance(x, str):
        return None
    if isinstance(x, str):
        return z3.StringVal(x)
    return None


def zstr(x):
    res = zstr_or_none(x)
    if res is None:
        raise Unsupported("expected a string, got %s" % type(x).__name__)
    return res


# --------------------------------------------------------------------------
class SBytes(Sym):
    """Symbolic bytes/bytearray: a length and a byte-valued function."""

    def __init__(self, n, f, kind="bytes"):
        self.n = z3.simplify(n) if not isinstance(n, int) else iv(n)
        self.f = f
        self.kind = kind

    @property
    def pytype(self):
        return bytes if self.kind == "bytes" else bytearray

    def __deepcopy__(self, memo):
        return SBytes(self.n, self.f, self.kind)

    def copy(self):
        return SBytes(self.n, self.f, self.kind)

    def __bool__(self):
        return ctx().branch(self.n != 0)

    def length(self):
        return mk(self.n)

    def at(self, i):
        return self.f(i if not isinstance(i, int) else iv(i))

    def _index(self, i):
        if isinstance(i, (int, SInt)):
            k = zint(i)
            if ctx().branch(z3.Or(k >= self.n, k < -self.n)):
                raise IndexError("index out of range")
            return ctx().ite(k >= 0, k, k + self.n)
        raise TypeError("indices must be integers")

    def get(self, i):
        if isinstance(i, slice):
            return self.slice(i)
        return mk(self.at(self._index(i)))

    def set(self, i, val):
        if self.kind != "bytearray":
            raise TypeError("'bytes' object does not support item assignment")
        if isinstance(i, slice):
            lo, m = self.bounds(i)
            new = lift_bytes(val)
            nlen = self.n - m + new.n
            of, nf = self.f, new.f
            nn, oldm = new.n, m
            self.f = lambda j: z3.If(
                j < lo, of(j), z3.If(j < lo + nn, nf(j - lo), of(j - nn + oldm))
            )
            self.n = z3.simplify(nlen)
            return
        k = self._index(i)
        v = zint(val)
        if ctx().branch(z3.Or(v < 0, v > 255)):
            raise ValueError("byte must be in range(0, 256)")
        of = self.f
        self.f = lambda j: z3.If(j == k, v, of(j))

    def bounds(self, s):
        c = ctx()
        if s.step is not None and s.step != 1:
            raise Unsupported("slice step")

        def clamp(x, dflt):
            if x is None:
                return dflt
            k = zint(x)
            ks = z3.simplify(k)
            if not (z3.is_int_value(ks) and ks.as_long() >= 0):
                k = c.ite(k < 0, c.ite(k + self.n < 0, iv(0), k + self.n), k)
            return c.ite(k > self.n, self.n, k)

        lo = clamp(s.start, iv(0))
        hi = clamp(s.stop, self.n)
        m = c.ite(hi >= lo, hi - lo, iv(0))
        return z3.simplify(lo), z3.simplify(m)

    def slice(self, s):
        lo, m = self.bounds(s)
        of = self.f
        if z3.is_int_value(lo) and lo.as_long() == 0:
            return SBytes(m, of, self.kind)
        return SBytes(m, lambda j: of(z3.simplify(j + lo)), self.kind)

    def __getitem__(self, i):
        return self.get(i)

    def __setitem__(self, i, v):
        self.set(i, v)

    def concat(self, o, kind):
        o = lift_bytes(o)
        n1, f1, f2 = self.n, self.f, o.f
        if z3.is_int_value(n1) and n1.as_long() == 0:
            return SBytes(o.n, f2, kind)
        if z3.is_int_value(o.n) and o.n.as_long() == 0:
            return SBytes(n1, f1, kind)
        return SBytes(
            n1 + o.n,
            lambda j: z3.If(j < n1, f1(j), f2(z3.simplify(j - n1))),
            kind,
        )

    def __add__(self, o):
        if not is_byteslike(o):
            return NotImplemented
        return self.concat(o, self.kind)

    def __radd__(self, o):
        if not is_byteslike(o):
            return NotImplemented
        left = lift_bytes(o)
        return left.concat(self, left.kind)

    def __iadd__(self, o):
        if not is_byteslike(o):
            return NotImplemented
        res = self.concat(o, self.kind)
        if self.kind == "bytes":
            return res
        self.n, self.f = res.n, res.f
        return self

    def extend(self, o):
        if self.kind != "bytearray":
            raise AttributeError("extend")
        self.__iadd__(o)

    def clear(self):
        self.n = iv(0)

    def decode(self, *_):
        raise Unsupported("decode of symbolic bytes")

    def __eq__(self, o):
        if not is_byteslike(o):
            return False
        return bytes_eq(self, lift_bytes(o))

    def __ne__(self, o):
        if not is_byteslike(o):
            return True
        return Not(bytes_eq(self, lift_bytes(o)))

    __hash__ = Sym.__hash__

    def __iter__(self):
        k = concrete_int(mk(self.n))
        if k is None:
            raise Unsupported("iteration over symbolic bytes")
        return iter([mk(self.at(i)) for i in range(k)])

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(bytearray, name):
            raise Unsupported("bytes.%s on symbolic bytes" % name)
        raise AttributeError(name)


def is_byteslike(x):
    return isinstance(x, (SBytes, bytes, bytearray, memoryview))


def lift_bytes(x):
    if isinstance(x, SBytes):
        return x
    if isinstance(x, memoryview):
        x = bytes(x)
    if isinstance(x, (bytes, bytearray)):
        kind = "bytes" if isinstance(x, bytes) else "bytearray"
        data = bytes(x)
        if len(set(data)) <= 1:
            const = iv(data[0] if data else 0)
            return SBytes(iv(len(data)), lambda j: const, kind)

        def fun(j, data=data):
            js = z3.simplify(j)
            if z3.is_int_value(js):
                k = js.as_long()
                return iv(data[k]) if 0 <= k < len(data) else iv(0)
            if len(data) > 64:
                raise Unsupported("long literal bytes at a symbolic index")
            res = iv(data[-1])
            for k in range(len(data) - 2, -1, -1):
                res = z3.If(js == k, iv(data[k]), res)
            return res

        return SBytes(iv(len(data)), fun, kind)
    raise Unsupported("expected bytes, got %s" % type(x).__name__)


def bytes_eq(a, b):
    """Equality of byte strings as an SBool.

    eq -> equal lengths; not eq -> lengths differ or a witness index differs.
    Concrete small lengths are expanded exactly.
    """
    c = ctx()
    na, nb = z3.simplify(a.n), z3.simplify(b.n)
    if z3.is_int_value(na) and z3.is_int_value(nb):
        if na.as_long() != nb.as_long():
            return False
        if na.as_long() <= 16:
            return mk(z3.And([a.f(iv(i)) == b.f(iv(i)) for i in range(na.as_long())]))
    eq = z3.Bool(c.fresh_name("bytes_eq"))
    j = z3.Int(c.fresh_name("bytes_wit"))
    c.add(z3.Implies(eq, na == nb))
    c.add(
        z3.Implies(
            z3.Not(eq),
            z3.Or(na != nb, z3.And(j >= 0, j < na, a.f(j) != b.f(j))),
        )
    )
    return SBool(eq)


# --------------------------------------------------------------------------
# Boolean helpers that work on native and symbolic values (no branching)
def And(*xs):
    out = []
    for x in xs:
        z = zbool(x)
        if isinstance(z, bool):
            if not z:
                return False
            continue
        out.append(z)
    if not out:
        return True
    return mk(z3.And(out))


def Or(*xs):
    out = []
    for x in xs:
        z = zbool(x)
        if isinstance(z, bool):
            if z:
                return True
            continue
        out.append(z)
    if not out:
        return False
    return mk(z3.Or(out))


def Not(x):
    z = zbool(x)
    if isinstance(z, bool):
        return not z
    return mk(z3.Not(z))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    za, zb = zbool(a), zbool(b)
    if isinstance(za, bool) and isinstance(zb, bool):
        return za == zb
    za = z3.BoolVal(za) if isinstance(za, bool) else za
    zb = z3.BoolVal(zb) if isinstance(zb, bool) else zb
    return mk(za == zb)


def Ite(cond, a, b):
    """Numeric conditional without branching."""
    z = zbool(cond)
    if isinstance(z, bool):
        return a if z else b
    na, nb = num(a), num(b)
    if na and nb and na[0] != "n" and nb[0] != "n":
        if na[0] == nb[0] == "i":
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                return mk(z3.If(z, zterm_bool(a), zterm_bool(b)))
            return mk(z3.If(z, na[1], nb[1]))
        return mk(z3.If(z, to_r(*na), to_r(*nb)))
    sa, sb = zstr_or_none(a), zstr_or_none(b)
    if sa is not None and sb is not None:
        return mk(z3.If(z, sa, sb))
    return a if ctx().branch(z) else b


def same(a, b):
    """Structural equality of two values as a truth value (no branching)."""
    if a is b:
        return True
    if isinstance(a, z3.ExprRef):
        a = mk(a)
    if isinstance(b, z3.ExprRef):
        b = mk(b)
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, SBytes) or isinstance(b, SBytes):
            if is_byteslike(a) and is_byteslike(b):
                return bytes_eq(lift_bytes(a), lift_bytes(b))
            return False
        if hasattr(a, "same_as"):
            return a.same_as(b)
        if hasattr(b, "same_as"):
            return b.same_as(a)
        return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b) or isinstance(a, list) != isinstance(b, list):
            return False
        return And(*[same(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        out = []
        for k in a:
            hit = [kk for kk in b if kk is k or (not isinstance(kk, Sym) and not isinstance(k, Sym) and kk == k)]
            if not hit:
                return False
            out.append(same(a[k], b[hit[0]]))
        return And(*out)
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    res = a == b
    return res if isinstance(res, (bool, SBool)) else bool(res)


def sametype(a, b):
    return pytype(a) is pytype(b)


def pytype(x):
    if isinstance(x, Sym):
        return x.pytype
    return type(x)


# --------------------------------------------------------------------------
class SSeq(Sym):
    """A symbolic-length prefix (a view of a base collection) + native tail.

    ``elem(i)`` gives the Python object at index ``i`` of the base; objects are
    memoised per index term so that identity is stable.
    """

    def __init__(self, n, elem, tag=None, kind="list", start=None):
        self.n = n if not isinstance(n, int) else iv(n)
        self.elem = elem
        self.tag = tag
        self.kind = kind
        self.start = iv(0) if start is None else start
        self.tail = []

    @property
    def pytype(self):
        return list if self.kind == "list" else tuple

    def __deepcopy__(self, memo):
        res = SSeq(self.n, self.elem, self.tag, self.kind, self.start)
        res.tail = list(self.tail)
        return res

    def base_at(self, i):
        k = z3.simplify((i if not isinstance(i, int) else iv(i)) + self.start)
        c = ctx()
        key = ("seq", id(self.elem), k.get_id())
        if key not in c.memo:
            c.memo[key] = (self.elem(k), k, self.elem)
        return c.memo[key][0]

    def zlen(self):
        return z3.simplify(self.n + len(self.tail))

    def length(self):
        return mk(self.zlen())

    def __bool__(self):
        return ctx().branch(self.zlen() != 0)

    def get(self, i):
        c = ctx()
        if isinstance(i, slice):
            if self.tail:
                raise Unsupported("slice of an extended symbolic list")
            tmp = SBytes(self.n, lambda j: j)
            lo, m = tmp.bounds(i)
            return SSeq(m, self.elem, None, self.kind, z3.simplify(self.start + lo))
        k = zint(i)
        tot = self.zlen()
        if c.branch(z3.Or(k >= tot, k < -tot)):
            raise IndexError("list index out of range")
        k = z3.simplify(c.ite(k >= 0, k, k + tot))
        if c.branch(k < self.n):
            for other in c.indices:
                # the element of the round, by another name
                if not z3.is_int_value(k) and c.entails(k == other):
                    k = other
                    break
            return self.base_at(k)
        for idx, val in enumerate(self.tail):
            if c.branch(k == self.n + idx):
                return val
        raise Unsupported("tail index")

    def __getitem__(self, i):
        return self.get(i)

    def append(self, x):
        self.tail.append(x)

    def extend(self, xs):
        if isinstance(xs, SSeq):
            # the next part of the same base collection
            if xs.elem is self.elem and not self.tail and not xs.tail and ctx().entails(
                    z3.Or(xs.n == 0, xs.start == self.start + self.n)):
                self.n = z3.simplify(self.n + xs.n)
                return
            raise Unsupported("extend by a symbolic list")
        self.tail.extend(xs)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __add__(self, xs):
        res = self.copy()
        res.extend(xs)
        return res

    def __delitem__(self, i):
        if isinstance(i, slice):
            if self.tail:
                raise Unsupported("deletion from an extended symbolic list")
            lo, m = SBytes(self.n, lambda j: j).bounds(i)
            c = ctx()
            if c.entails(z3.Or(m == 0, lo == 0)):
                self.start = z3.simplify(self.start + m)
            elif not c.entails(lo + m == self.n):
                raise Unsupported("deletion inside a symbolic list")
            self.n = z3.simplify(self.n - m)
            return
        if concrete_int(i) not in (0, -1):
            raise Unsupported("deletion inside a symbolic list")
        self.pop(i)

    def _no(self, *_):
        raise Unsupported("operation on a symbolic list")

    __radd__ = __mul__ = __rmul__ = __imul__ = __setitem__ = __reversed__ = __lt__ = __le__ = __gt__ = __ge__ = _no

    def pop(self, i=-1):
        c = ctx()
        ci = concrete_int(i)
        if not self:
            raise IndexError("pop from empty list")
        if ci == 0:
            if c.branch(self.n > 0):
                res = self.base_at(0)
                self.start = z3.simplify(self.start + 1)
                self.n = z3.simplify(self.n - 1)
                return res
            return self.tail.pop(0)
        if ci == -1:
            if self.tail:
                return self.tail.pop()
            res = self.base_at(self.n - 1)
            self.n = z3.simplify(self.n - 1)
            return res
        raise Unsupported("pop")

    def clear(self):
        self.n = iv(0)
        self.tail = []

    def copy(self):
        return self.__deepcopy__(None)

    def __iter__(self):
        return bounded_iter(self)

    def __contains__(self, x):
        raise Unsupported("membership in a symbolic list")

    def same_as(self, o):
        if isinstance(o, SSeq):
            if o.elem is self.elem and o.tail == self.tail:
                return mk(z3.And(self.n == o.n, z3.Or(self.n == 0, self.start == o.start)))
        if self is o:
            return True
        raise Unsupported("equality of symbolic lists")

    def __eq__(self, o):
        return self.same_as(o)

    def __ne__(self, o):
        return Not(self.same_as(o))

    __hash__ = Sym.__hash__

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(list, name):
            raise Unsupported("list.%s on a symbolic list" % name)
        raise AttributeError(name)


def bounded_iter(seq):
    """Iterate a symbolic sequence up to the unrolling bound (marked bounded)."""
    c = ctx()
    limit = c.opts.get("unroll", 3)
    i = 0
    while True:
        was = len(c.trail)
        again = c.branch(zint(seq.length()) > i)
        if len(c.trail) > was:
            c.unrolling()
        if not again:
            return
        if i >= limit:
            c.note_bounded("iteration of a symbolic collection cut at %d" % limit)
            raise core.PathEnd("unrolling bound")
        yield seq.get(i)
        i += 1


class SRange(SSeq):
    """range() with symbolic bounds (step 1)."""

    def __init__(self, lo, hi, tag=None):
        n = z3.simplify(ctx().ite(hi >= lo, hi - lo, iv(0)))
        super().__init__(n, lambda i: mk(lo + i), tag, "range")
        self.lo, self.hi = lo, hi

    @property
    def pytype(self):
        return range


# --------------------------------------------------------------------------
class SMap(Sym):
    """A symbolic mapping: base given by closures + an ordered overlay.

    ``has(k)``: truth value that base holds k; ``val(k)``: Python value at k.
    k is a Python-level key value (SStr/SInt/native).  The overlay records
    writes and deletions made by the code, newest last.
    """

    MISSING = object()

    def __init__(self, has, val, default=None, keys=None, n=None, tag=None, name="map"):
        self.has_base = has
        self.val_base = val
        self.default = default
        self.keys_seq = keys
        self.n = n
        self.tag = tag
        self.overlay = []
        self.cache = []
        self.name = name

    pytype = dict

    def __deepcopy__(self, memo):
        import copy as _copy

        res = SMap(self.has_base, self.val_base, self.default, self.keys_seq, self.n, self.tag, self.name)
        res.overlay = [(k, _copy.deepcopy(v, memo) if v is not SMap.MISSING else v) for k, v in self.overlay]
        res.cache = [(k, _copy.deepcopy(v, memo)) for k, v in self.cache]
        return res

    def lookup(self, k):
        """The stored value, or MISSING."""
        c = ctx()
        for key, val in reversed(self.overlay):
            if c.branch(zb(same(key, k))):
                return val
        if not c.branch(zb(self.has_base(k))):
            return SMap.MISSING
        for key, val in self.cache:
            if c.branch(zb(same(key, k))):
                return val
        val = self.val_base(k)
        self.cache.append((k, val))
        return val

    def __contains__(self, k):
        return self.contains(k)

    def contains(self, k):
        return self.lookup(k) is not SMap.MISSING

    def contains_term(self, k, upto=None):
        """Membership as a truth value, no branching."""
        res = self.has_base(k)
        for key, val in self.overlay[:upto]:
            hit = same(key, k)
            res = Or(And(hit, val is not SMap.MISSING), And(Not(hit), res))
        return res

    def get_item(self, k):
        val = self.lookup(k)
        if val is SMap.MISSING:
            if self.default is None:
                raise KeyError(k)
            val = self.default()
            self.overlay.append((k, val))
        return val

    def __getitem__(self, k):
        return self.get_item(k)

    def __setitem__(self, k, v):
        self.overlay.append((k, v))

    def __delitem__(self, k):
        if self.lookup(k) is SMap.MISSING:
            raise KeyError(k)
        self.overlay.append((k, SMap.MISSING))

    def get(self, k, dflt=None):
        val = self.lookup(k)
        return dflt if val is SMap.MISSING else val

    def pop(self, k, *dflt):
        val = self.lookup(k)
        if val is SMap.MISSING:
            if dflt:
                return dflt[0]
            raise KeyError(k)
        self.overlay.append((k, SMap.MISSING))
        return val

    def setdefault(self, k, dflt=None):
        val = self.lookup(k)
        if val is SMap.MISSING:
            self.overlay.append((k, dflt))
            return dflt
        return val

    def _seq(self, what):
        if self.keys_seq is None or self.overlay:
            raise Unsupported("iteration over a symbolic mapping (%s)" % self.name)
        ks = self.keys_seq
        if what == "keys":
            elem = ks
        elif what == "values":
            elem = lambda i: self.get_item(ks(i))
        else:
            elem = lambda i: (lambda k: (k, self.get_item(k)))(ks(i))
        res = SSeq(self.n, elem, self.tag)
        res.source = (what, self)
        return res

    def copy(self):
        res = SMap(self.has_base, self.val_base, self.default, self.keys_seq, self.n, self.tag, self.name)
        res.overlay = list(self.overlay)
        res.cache = list(self.cache)
        return res

    def keys(self):
        return self._seq("keys")

    def values(self):
        return self._seq("values")

    def items(self):
        return self._seq("items")

    def __iter__(self):
        return iter(self._seq("keys"))

    def length(self):
        if self.n is None:
            raise Unsupported("len of a symbolic mapping")
        n = self.n
        for i, (key, val) in enumerate(self.overlay):
            was = zb(self.contains_term(key, i))
            n = n + (z3.If(was, 0, 1) if val is not SMap.MISSING else z3.If(was, -1, 0))
        return mk(z3.simplify(n))

    def __bool__(self):
        return bool(mk(zint(self.length()) != 0))

    def same_as(self, o):
        raise Unsupported("equality of symbolic mappings")

    def __eq__(self, o):
        if self is o:
            return True
        raise Unsupported("equality of symbolic mappings")

    __hash__ = Sym.__hash__

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(dict, name):
            raise Unsupported("dict.%s on a symbolic mapping" % name)
        raise AttributeError(name)


class VDict(dict):
    """A dict made by the code that a loop contract may turn symbolic.

    Without ``vc`` it is a plain dict; with it, every access goes to the
    symbolic mapping.
    """

    vc = None
    default_factory = None

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        self[key] = val = self.default_factory()
        return val

    def __repr__(self):
        return "VDict(%r)" % self.vc if self.vc is not None else dict.__repr__(self)


def _delegate(name):
    plain = getattr(dict, name)

    def method(self, *args, **kwargs):
        if self.vc is None:
            return plain(self, *args, **kwargs)
        return getattr(self.vc, name)(*args, **kwargs)

    method.__name__ = name
    return method


for _n in ("__iter__", "__contains__", "__getitem__", "__setitem__", "__delitem__", "__eq__", "__ne__", "keys",
           "values", "items", "get", "pop", "setdefault", "update", "copy", "clear", "popitem"):
    setattr(VDict, _n, _delegate(_n))
VDict.__hash__ = None


def _vdict_len(self):
    if self.vc is not None:
        raise Unsupported("native len of a symbolic mapping")
    return dict.__len__(self)


VDict.__len__ = _vdict_len
VDict.__bool__ = lambda self: bool(self.vc) if self.vc is not None else dict.__len__(self) > 0


def real(x):
    """The symbolic mapping behind a dict made by the code, if any."""
    return x.vc if type(x) is VDict and x.vc is not None else x


def become(d, smap):
    """Give a dict made by the code an arbitrary (symbolic) content."""
    if type(d) is not VDict:
        raise Unsupported("a mapping the code did not make")
    dict.clear(d)
    d.vc = smap


def zb(x):
    z = zbool(x)
    return z3.BoolVal(z) if isinstance(z, bool) else z


def has_sym(x, depth=4):
    """Does a value contain a proxy (containers only)?"""
    if isinstance(x, Sym):
        return True
    if depth <= 0:
        return False
    if isinstance(x, dict):
        if type(x) is VDict and x.vc is not None:
            return True
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(v, depth - 1) for v in x)
    return False
