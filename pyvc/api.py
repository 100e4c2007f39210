"""The contract-writing API, shared by symbolic and concrete runs."""
import enum
import os
import random
import re
import struct
import sys
import traceback
from collections import deque
from fractions import Fraction

import z3

from . import core, heap
from .core import ContractFail, Ctx, Discard, PathEnd, Unsupported
from .sym import (
    And, Iff, Implies, Ite, Not, Or, SBool, SBytes, SInt, SMap, SReal, SSeq, SStr, Sym,
    byte_term, is_byteslike, iv, mk, same, zb, zbool, zint,
)

DEBUG = bool(os.environ.get("PYVC_DEBUG"))
UNITS = {}
CONTRACTS = {}
SEARCH = {}


class Unit:
    def __init__(self, name, fn, uses=(), loops=(), opts=None, concrete=True, funcs=(), covers=(),
                 props=(), tier="quick", weight=1.0, essential=True):
        self.name = name
        self.props = [props] if isinstance(props, str) else list(props)
        self.tier = tier
        self.weight = weight
        self.essential = essential
        self.fn = fn
        self.uses = list(uses)
        self.loops_fn = loops
        self.opts = dict(opts or {})
        self.concrete = concrete
        self.funcs = list(funcs)
        self.covers = list(covers)

    @property
    def loops(self):
        return [x() if isinstance(x, type) else x for x in self.loops_fn]


class Contract:
    def __init__(self, key, spec, gen, loops, opts, uses, trusted=False):
        self.trusted = trusted
        self.key = key
        self.spec = spec
        self.gen = gen
        self.loops = loops
        self.opts = opts
        self.uses = uses


def unit(name, **kw):
    def deco(fn):
        assert name not in UNITS, name
        UNITS[name] = Unit(name, fn, **kw)
        return fn

    return deco


def contract(key, gen=None, loops=(), opts=None, uses=(), trusted=False, essential=False, props=(),
             concrete=True, by=()):
    """Executable contract of a real function.

    The body is the strongest postcondition as a state transformer: requires
    through v.require, effects by assignment, result by return/raise. It is
    proved equal to the real body (unit 'refine:<key>') and stands for the
    function at call sites of the units that use it. Without gen it is proved
    by the units named in by (whose postconditions it restates), or assumed.
    """

    def deco(spec):
        CONTRACTS[key] = Contract(key, spec, gen, loops, opts, uses, trusted)
        CONTRACTS[key].by = (by,) if isinstance(by, str) else tuple(by)
        if gen is not None:
            name = "refine:" + key

            def fn(v, key=key, spec=spec, gen=gen):
                refine(v, key, spec, gen)

            UNITS[name] = Unit(name, fn, uses=list(uses), loops=loops, opts=opts, funcs=[key],
                               essential=essential, props=props, concrete=concrete)
        return spec

    return deco


def search(prop):
    def deco(fn):
        SEARCH.setdefault(prop, []).append(fn)
        return fn

    return deco


def resolve(key):
    """The real function object (owner class, attribute) behind a key."""
    import importlib

    mod, qual = key.split(":")
    obj = importlib.import_module(mod)
    owner = None
    for part in qual.split("."):
        owner = obj
        obj = obj.__dict__[part] if isinstance(obj, type) and part in obj.__dict__ else getattr(obj, part)
    return owner, obj


SYM_NAMES = re.compile(r"\b(SSeq|SMap|SStr|SInt|SReal|SBool|SBytes|SRange|VDict|Poison|Sym)\b")
CALL_ERROR = re.compile(r"^([\w.<>]+)\(\) (got|missing|takes)\b")


def harness_error(exc):
    """Is this the harness's own limit (an operation that a symbolic value or
    a stand-in object does not have), not a failure of the code?"""
    if isinstance(exc, AttributeError):
        obj = getattr(exc, "obj", None)
        if type(obj).__module__ == "pyvc.wild":
            return False
        mod = getattr(obj if isinstance(obj, type) else type(obj), "__module__", "") or ""
        if obj is not None and mod.startswith(("pyvc", "specs")) and exc.name not in getattr(obj, "vc_lacks", ()):
            # a class of the package that is only extended by the contract
            return not any(c.__module__.startswith("vtelem") for c in type(obj).__mro__)
    if isinstance(exc, NameError):
        tb = exc.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        return tb.tb_frame.f_globals.get("__name__", "").startswith(("pyvc", "specs"))
    if isinstance(exc, TypeError):
        text = str(exc)
        if SYM_NAMES.search(text):
            return True
        hit = CALL_ERROR.match(text)
        if hit:
            head = hit.group(1).split(".")[0]
            mods = list(sys.modules.items())
            mine = any(n.startswith(("specs", "pyvc")) and head in vars(m) for n, m in mods if m is not None)
            theirs = any(n.startswith("vtelem") and head in vars(m) and getattr(vars(m)[head], "__module__", "").startswith("vtelem")
                         for n, m in mods if m is not None)
            return mine and not theirs
    return False


def outcome(v, fn, catch=Exception):
    """('ok', value) or ('raise', exception type)."""
    try:
        return ("ok", fn())
    except catch as exc:  # pylint: disable=broad-except
        if v.symbolic and v.dead:
            raise PathEnd("dead") from exc
        if v.symbolic and harness_error(exc):
            raise Unsupported("stand-in: %s: %s" % (type(exc).__name__, exc)) from exc
        if DEBUG:
            traceback.print_exc()
        return ("raise", type(exc), exc)


def refine(v, key, spec, gen):
    owner, func = resolve(key)
    if isinstance(func, (staticmethod, classmethod)):
        func = func.__func__
    is_prop = isinstance(func, property)
    if is_prop:
        func = func.fget
    args, kwargs = gen(v)
    args = list(args)
    memo = {}
    args2 = heap.clone(args, memo)
    kwargs2 = heap.clone(kwargs, memo)
    v.require_mode = "assume"
    want = outcome(v, lambda: spec(v, *args2, **kwargs2))
    v.require_mode = "check"
    inl = getattr(v, "inlining", set())
    v.inlining = set(inl) | {key}
    got = outcome(v, lambda: func(*args, **kwargs))
    v.inlining = inl
    short = key.split(":")[1]
    v.check("%s: raises exactly when its contract says" % short, got[0] == want[0])
    if got[0] != want[0]:
        return
    if got[0] == "raise":
        v.check("%s: exception type" % short, issubclass(got[1], want[1]) or issubclass(want[1], got[1]))
    else:
        v.check_same("%s: result" % short, got[1], want[1])
    v.check_same("%s: state" % short, args, args2)
    v.cover("refined %s" % short)


class API:
    """Methods available to contracts in both modes."""

    require_mode = "check"

    def require(self, cond, name="precondition"):
        if self.require_mode == "assume":
            self.assume(cond)
        else:
            self.check("call site: " + name, cond)

    def outcome(self, fn, catch=Exception):
        return outcome(self, fn, catch)

    def fails(self, fn, exc=Exception):
        """True when the call raises."""
        return self.outcome(fn, exc)[0] == "raise"

    def check_same(self, name, a, b):
        """Two values/state graphs are equal, field by field."""
        seen = set()
        todo = [("", a, b)]
        conds = []
        while todo:
            path, x, y = todo.pop()
            if x is y:
                continue
            if heap.is_atom(x) or heap.is_atom(y) or isinstance(x, Sym) or isinstance(y, Sym):
                if isinstance(x, SMap) and isinstance(y, SMap):
                    self._same_maps(name, path, x, y, todo)
                    continue
                if callable(x) and callable(y) and not isinstance(x, Sym):
                    continue
                self.check("%s%s" % (name, path), same(x, y))
                continue
            if id(x) in seen:
                continue
            seen.add(id(x))
            if is_byteslike(x) and is_byteslike(y):
                self.check("%s%s" % (name, path), same(x, y))
                continue
            if isinstance(x, dict) and isinstance(y, dict):
                ky = list(y)
                self.check("%s%s: same keys" % (name, path), len(x) == len(y))
                for k in x:
                    hit = [kk for kk in ky if kk is k]
                    if not hit:
                        hit = [kk for kk in ky if type(kk) is type(k) and not isinstance(kk, Sym) and kk == k]
                    if not hit:
                        self.check("%s%s[%r]: key present" % (name, path, k if not isinstance(k, Sym) else "?"), False)
                        continue
                    todo.append(("%s[%s]" % (path, k if isinstance(k, (str, int)) else "?"), x[k], y[hit[0]]))
                continue
            if isinstance(x, (list, tuple, deque)) and isinstance(y, (list, tuple, deque)):
                self.check("%s%s: length" % (name, path), len(x) == len(y))
                if len(x) != len(y):
                    continue
                for i, (p, q) in enumerate(zip(x, y)):
                    todo.append(("%s[%d]" % (path, i), p, q))
                continue
            if isinstance(x, (set, frozenset)):
                self.check("%s%s" % (name, path), x == y)
                continue
            if type(x) is type(y) and hasattr(x, "__dict__"):
                if type(x).__module__.startswith(("logging", "_thread", "z3", "threading")):
                    continue
                for k in set(x.__dict__) | set(y.__dict__):
                    if k not in x.__dict__ or k not in y.__dict__:
                        # attributes outside the contract's vocabulary
                        continue
                    todo.append(("%s.%s" % (path, k), x.__dict__[k], y.__dict__[k]))
                continue
            if callable(x) and callable(y):
                continue
            self.check("%s%s" % (name, path), same(x, y))

    def _same_maps(self, name, path, x, y, todo):
        keys = [k for k, _ in x.overlay] + [k for k, _ in y.overlay]
        keys += [k for k, _ in x.cache] + [k for k, _ in y.cache]
        extra = getattr(self, "probe_keys", [])
        for k in keys + list(extra):
            a, b = x.lookup(k), y.lookup(k)
            if a is SMap.MISSING or b is SMap.MISSING:
                self.check("%s%s: same keys" % (name, path), a is b)
                continue
            todo.append((path + "[key]", a, b))

    def patch(self, data, at, new):
        """data with new written at a concrete offset (fresh buffer)."""
        if not isinstance(data, SBytes):
            res = bytearray(data)
            res[at:at + len(new)] = new
            return res
        from .sym import lift_bytes

        new = lift_bytes(new)
        k = z3.simplify(new.n).as_long()
        of, nf = data.f, new.f
        terms = [nf(iv(i)) for i in range(k)]

        def fun(j):
            js = z3.simplify(j)
            if z3.is_int_value(js):
                i = js.as_long() - at
                return terms[i] if 0 <= i < k else of(js)
            res = of(js)
            for i in range(k - 1, -1, -1):
                res = z3.If(js == at + i, terms[i], res)
            return res

        return SBytes(data.n, fun, data.kind)

    def call(self, fn, *args, **kwargs):
        """Call a library function with its contract (symbolic) or as it is."""
        if self.symbolic:
            from . import runtime

            return runtime.call(fn, *args, **kwargs)
        return fn(*args, **kwargs)

    # value helpers
    And = staticmethod(And)
    Or = staticmethod(Or)
    Not = staticmethod(Not)
    Implies = staticmethod(Implies)
    Iff = staticmethod(Iff)
    Ite = staticmethod(Ite)
    same = staticmethod(same)


class SymAPI(API):
    """Symbolic sources of values."""

    def int(self, name, lo=None, hi=None, cmax=None):
        nm = self.fresh_name(name)
        t = z3.Int(nm)
        self.inputs[nm] = ("int", t)
        if lo is not None:
            self.add(t >= zint(lo))
        if hi is not None:
            self.add(t <= zint(hi))
        if lo is not None and hi is not None and self._check() == z3.unsat:
            raise PathEnd("empty range")
        return SInt(t)

    def bool(self, name):
        nm = self.fresh_name(name)
        t = z3.Bool(nm)
        self.inputs[nm] = ("bool", t)
        return SBool(t)

    def real(self, name, lo=None, hi=None):
        nm = self.fresh_name(name)
        t = z3.Real(nm)
        self.inputs[nm] = ("real", t)
        if lo is not None:
            self.add(t >= lo)
        if hi is not None:
            self.add(t <= hi)
        return SReal(t)

    def str(self, name):
        nm = self.fresh_name(name)
        t = z3.String(nm)
        self.inputs[nm] = ("str", t)
        return SStr(t)

    def bytes(self, name, kind="bytes", n=None, maxn=None):
        nm = self.fresh_name(name)
        if n is None:
            length = z3.Int(nm + ".n")
            self.add(length >= 0)
            if maxn is not None:
                self.add(length <= zint(maxn))
        else:
            length = zint(n)
        fn = z3.Function(nm, z3.IntSort(), z3.IntSort())
        self.inputs[nm] = ("bytes", (length, fn))
        return SBytes(length, lambda i: byte_term(fn(i)), kind)

    def choose(self, name, options):
        """Nondeterministic choice between native options (all explored)."""
        options = list(options)
        nm = self.fresh_name(name)
        for i, opt in enumerate(options[:-1]):
            if self.branch(z3.Bool("%s=%d" % (nm, i))):
                self.inputs[nm] = ("choice", i)
                return opt
        self.inputs[nm] = ("choice", len(options) - 1)
        return options[-1]

    def seq(self, name, elem, n=None, tag=None, kind="list"):
        nm = self.fresh_name(name)
        if n is None:
            t = z3.Int(nm + ".n")
            self.add(t >= 0)
            self.inputs[nm + ".n"] = ("int", t)
        else:
            t = zint(n)
        return SSeq(t, elem, tag or nm, kind)

    def uf_int(self, name, *sorts):
        return z3.Function(name, *([z3.IntSort()] * (len(sorts) or 1) + [z3.IntSort()]))

    def index(self, name, n):
        """An arbitrary index below n (a skolem constant)."""
        nm = self.fresh_name(name)
        t = z3.Int(nm)
        self.add(z3.And(t >= 0, t < zint(n)))
        if self._check() == z3.unsat:
            raise PathEnd("empty")
        return SInt(t)

    def byte(self, data, i):
        return mk(data.at(zint(i)))

    @property
    def Queue(self):
        from .models_queue import Queue

        return Queue


class SymCtx(SymAPI, Ctx):
    pass


# --------------------------------------------------------------------------
class ConcreteCtx(API):
    """Runs a contract on concrete values against the real code."""

    symbolic = False
    dead = False
    abstract = False

    def __init__(self, rng, values=None, hints=None):
        self.rng = rng
        self.values = dict(values or {})
        self.hints = hints or {"int": [], "str": [], "float": []}
        self.counter = {}
        self.drawn = {}
        self.covers = set()
        self.g = type("Ghost", (), {})()
        self.checks = 0
        self.notes = []

    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else "%s!%d" % (base, n)

    def assume(self, cond):
        if not cond:
            raise Discard()

    def check(self, name, cond, abstract=False):
        self.checks += 1
        if not cond:
            raise ContractFail(name)

    def cover(self, name):
        self.covers.add(name)

    def note_bounded(self, what):
        pass

    def _draw(self, nm, kind, gen):
        if nm in self.values and self.values[nm][1] is not None and self.values[nm][0] == kind:
            val = self.values[nm][1]
        else:
            val = gen()
        self.drawn[nm] = (kind, val)
        return val

    def int(self, name, lo=None, hi=None, cmax=None):
        """cmax: cap of the values drawn at random (replays are not capped)."""
        nm = self.fresh_name(name)

        def gen():
            val = draw()
            if cmax is not None and val > cmax:
                val = (lo or 0) + val % (cmax - (lo or 0) + 1)
            return val

        def draw():
            r = self.rng.random()
            if self.hints["int"] and r < 0.4:
                val = self.rng.choice(self.hints["int"]) + self.rng.choice([-1, 0, 0, 0, 1])
            elif r < 0.7:
                val = self.rng.randint(-2, 10)
            elif r < 0.8 and lo is not None and hi is not None:
                val = self.rng.choice([lo, hi, lo + 1, hi - 1])
            else:
                bits = self.rng.choice([3, 7, 8, 15, 16, 31, 32, 63, 64, 70])
                val = self.rng.choice([-1, 1]) * (2 ** bits + self.rng.choice([-2, -1, 0, 1]))
                if self.rng.random() < 0.5:
                    val = self.rng.randint(-(2 ** bits), 2 ** bits)
            if (lo is not None and val < lo) or (hi is not None and val > hi):
                if lo is not None and hi is not None:
                    val = self.rng.randint(lo, hi) if self.rng.random() < 0.5 else min(hi, lo + self.rng.randint(0, 20))
                elif lo is not None:
                    val = lo + abs(val) % 1000
                else:
                    val = hi - abs(val) % 1000
            return val

        val = self._draw(nm, "int", gen)
        if (lo is not None and val < lo) or (hi is not None and val > hi):
            raise Discard()
        if cmax is not None and val > max(cmax, 1 << 20):
            raise Discard()
        return val

    def bool(self, name):
        return self._draw(self.fresh_name(name), "bool", lambda: self.rng.random() < 0.5)

    def real(self, name, lo=None, hi=None):
        nm = self.fresh_name(name)

        def gen():
            r = self.rng.random()
            if self.hints["float"] and r < 0.3:
                val = self.rng.choice(self.hints["float"])
            elif r < 0.6:
                val = float(self.rng.randint(-5, 50))
            elif r < 0.8:
                val = self.rng.random() * 100
            else:
                val = self.rng.choice([0.0, 0.5, 1e-3, 1e10, -1.5, 3.4e38, 3.5e38, 1e300])
            if lo is not None and val < lo:
                val = lo + abs(val) % 1000
            if hi is not None and val > hi:
                val = hi - abs(val) % 1000
            fr = Fraction(val)
            return [fr.numerator, fr.denominator]

        val = self._draw(nm, "real", gen)
        try:
            res = float(Fraction(val[0], val[1]))
        except OverflowError:
            raise Discard() from None
        if (lo is not None and res < lo) or (hi is not None and res > hi):
            raise Discard()
        return res

    def str(self, name):
        def gen():
            r = self.rng.random()
            if self.hints["str"] and r < 0.4:
                return self.rng.choice(self.hints["str"])
            if r < 0.9:
                return self.rng.choice("abcdefgh") + str(self.rng.randint(0, 5))
            return self.rng.choice(["", "\u00e9\u4e2d", "A b", "x" * 70])

        return self._draw(self.fresh_name(name), "str", gen)

    def bytes(self, name, kind="bytes", n=None, maxn=None):
        def gen():
            num = n
            if num is None:
                num = self.rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 12, 20, 40])
                if maxn is not None:
                    num = min(num, maxn)
            return [self.rng.choice([0, 1, 255, self.rng.randrange(256)]) for _ in range(num)]

        val = self._draw(self.fresh_name(name), "bytes", gen)
        if n is not None and len(val) != n:
            val = (list(val) + [0] * n)[:n] if n < 100000 else gen()
        return bytes(val) if kind == "bytes" else bytearray(val)

    def choose(self, name, options):
        options = list(options)
        idx = self._draw(
            self.fresh_name(name), "choice", lambda: self.rng.randrange(len(options))
        )
        return options[idx % len(options)]

    def seq(self, name, elem, n=None, tag=None, kind="list"):
        nm = self.fresh_name(name)
        if n is None:
            n = self._draw(nm + ".n", "int", lambda: self.rng.choice([0, 1, 2, 3, 5, 8, 30]))
            if n < 0 or n > 5000:
                raise Discard()
        items = [elem(i) for i in range(n)]
        return items if kind == "list" else tuple(items)

    def index(self, name, n):
        if n <= 0:
            raise Discard()
        val = self._draw(self.fresh_name(name), "int", lambda: self.rng.randrange(n))
        if not 0 <= val < n:
            raise Discard()
        return val

    def byte(self, data, i):
        return data[i]

    @property
    def Queue(self):
        import queue

        return queue.Queue
