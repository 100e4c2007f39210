"""Loop cutting: invariants, havoc, frame check, preservation."""
import functools
import sys

import z3

from . import core, heap
from .core import PathEnd, Unsupported
from .sym import (
    SBool, SBytes, SInt, SMap, SRange, SReal, SSeq, SStr, Sym, mk, real, zb, zint,
)

from .wild import Wild


class Native:
    """A loop over a concrete iterable: plain iteration."""

    __slots__ = ("it", "h", "got")

    def __init__(self, it):
        self.it = it
        self.h = ()
        self.got = None


class Unrolled:
    """A loop over a symbolic collection without a contract (bounded)."""

    def __init__(self, seq):
        self.it = iter(seq)
        self.h = ()
        self.got = None


class WhileFree:
    """A while loop without a contract: unrolled, with a symbolic bound."""

    def __init__(self, limit, key):
        self.h = ()
        self.count = 0
        self.limit = limit
        self.key = key
        self.mark = None


class Poison(Sym):
    """A local that an earlier iteration may have set; must not be used."""

    def __init__(self, name):
        self.name = name

    def _bad(self, *_, **__):
        raise Unsupported("use of loop-carried local '%s' without an invariant" % self.name)

    __bool__ = __eq__ = __ne__ = __add__ = __radd__ = __sub__ = __lt__ = __le__ = _bad
    __gt__ = __ge__ = __call__ = __iter__ = __enter__ = __getitem__ = __contains__ = _bad
    __hash__ = Sym.__hash__

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        self._bad()


class Cut:
    """State of a loop under contract."""

    def __init__(self, spec, key, seq, locs, names):
        self.spec = spec
        self.key = key
        self.seq = seq
        self.h = {}
        # the element of the round, and what the loop variable gets
        self.item = self.got = None
        self.names = names
        self.locs = locs
        self.phase = 0
        self.k = None
        self.n = None
        self.S = None
        self.snap = None
        self.autos = []
        # for loops over range(len(xs)): the range
        self.indices = None
        # while loops that count up to a bound
        self.counted = False


class State:
    """What a loop contract sees."""

    def __init__(self, ctx, cut, locs):
        self.ctx = ctx
        self.g = ctx.g
        self.cut = cut
        self.locals = dict(locs)

    def role(self, cls):
        """Names of locals holding an instance of a class."""
        return [n for n, v in self.locals.items() if isinstance(v, cls)]


class LoopSpec:
    """Contract of a loop. Override what is needed.

    tag: tag of the iterated symbolic collection (for loops)
    match_while(key, ordinal, locals): claims a while loop
    init(S): obligations before, default inv(S, 0)
    havoc(S, k): give the modified state arbitrary values; returns {local: value}
    inv(S, k): [(name, condition)] in the current state
    modifies(S): objects whose fields the loop may change (frame)
    exit(S): facts after normal exit (called with k == n)
    """

    tag = None
    name = "loop"

    def match_for(self, seq, key, n):
        return self.tag is not None and getattr(seq, "tag", None) == self.tag

    def match_while(self, key, n, locs):
        return False

    def match_comp(self, fn, seq):
        """Claims a comprehension [fn(x) for x in seq] with side effects."""
        return False

    def comp_item(self, S, k, item):
        """The element made in round k."""

    def comp_result(self, S, k):
        """The list after k rounds."""
        raise Unsupported("result of a comprehension")

    def havoc(self, S, k):
        return {}

    def inv(self, S, k):
        return []

    def maybe(self, S, k):
        """Candidate invariants: [(name, condition)], dropped if not inductive."""
        return []

    def ghosts(self, S, k):
        return {}

    def modifies(self, S):
        return []

    def frame_ok(self, S, obj, path, lab, old, new):
        return False

    def step_begin(self, S, k, item):
        pass

    def step_end(self, S, k):
        pass

    def leave(self, S, k):
        """After normal exit of a for loop (k == n)."""


def find_spec(pred):
    c = core.CUR
    for spec in c.loops:
        if pred(spec):
            return spec
    return None


def for_begin(key, n, it, locs, names, used=()):
    c = core.CUR
    if c is None or not c.symbolic:
        return Native(iter(it))
    it = real(it)
    if type(it) is Wild:
        it = it.vc_seq()
    if isinstance(it, SMap):
        it = it.keys()
    if isinstance(it, SSeq):
        spec = find_spec(lambda s: s.match_for(it, key, n))
        if spec is None:
            cut = indexed(it, key, n, locs, names)
            return Unrolled(it) if cut is None else cut_begin(cut, used)
        return cut_begin(Cut(spec, (key, n), it, locs, names), used)
    return Native(iter(it))


def while_begin(key, n, locs, names, used=(), first=None, bound=None):
    c = core.CUR
    if c is None or not c.symbolic:
        return WhileFree(None, None)
    spec = find_spec(lambda s: s.match_while(key, n, locs))
    if spec is None:
        cut = None
        if bound is not None and c.loops and not c.dead:
            lo, hi = real(first()), real(bound())
            if all(isinstance(x, (int, SInt)) for x in (lo, hi)) and isinstance(hi, SInt):
                rng = SRange(zint(lo), zint(hi), tag=("range", hi))
                spec = find_spec(lambda s: s.match_for(rng, key, n))
                cut = indexed(rng, key, n, locs, names) if spec is None else Cut(spec, (key, n), rng, locs, names)
        if cut is None:
            return WhileFree(c.opts.get("unroll_while", 4), (key, n))
        cut.counted = True
        return cut_begin(cut, used)
    return cut_begin(Cut(spec, (key, n), None, locs, names), used)


def indexed(rng, key, n, locs, names):
    """A loop over the indices of a collection whose loops have a contract."""
    c = core.CUR
    if not isinstance(rng, SRange) or not c.loops or not c.entails(rng.lo == 0):
        return None
    seen, found = set(), []
    for val in list(locs.values()):
        for obj in [val] + list(getattr(val, "__dict__", {}).values() if not isinstance(val, type) else ()):
            obj = real(obj)
            if not isinstance(obj, SSeq) or isinstance(obj, SRange) or obj.tail or id(obj) in seen:
                continue
            seen.add(id(obj))
            spec = find_spec(lambda s, o=obj: s.match_for(o, key, n))
            if spec is not None and c.entails(obj.n == rng.n):
                found.append((spec, obj))
    if len(found) != 1:
        return None
    cut = Cut(found[0][0], (key, n), found[0][1], locs, names)
    cut.indices = rng
    return cut


def scalar(v):
    return isinstance(v, (int, SInt, SBool)) and not hasattr(type(v), "__members__")


def guarded(fn):
    """An exception of the contract's own code is not one of the program."""

    @functools.wraps(fn)
    def run(cut, *args):
        try:
            return fn(cut, *args)
        except Exception as exc:  # pylint: disable=broad-except
            if isinstance(exc, (core.Unsupported, core.ContractFail, core.Discard)):
                raise
            raise Unsupported("loop contract '%s': %s: %s" % (cut.spec.name, type(exc).__name__, exc)) from exc

    return run


@guarded
def cut_begin(cut, used):
    c = core.CUR
    if c.dead:
        raise PathEnd("dead")
    spec = cut.spec
    cut.S = State(c, cut, cut.locs)
    zero = z3.IntVal(0)
    if cut.seq is not None:
        if cut.seq.tail:
            raise Unsupported("loop over an extended symbolic list")
        cut.n = cut.seq.n
        c.check("%s: length is non-negative" % spec.name, mk(cut.n >= 0))
    for nm, cond in spec.inv(cut.S, zero):
        c.check("%s: invariant '%s' holds initially" % (spec.name, nm), cond)
    lost = []
    for nm, cond in spec.maybe(cut.S, zero):
        cand = (cut.key, "maybe", nm)
        if cand not in c.houdini_dead and not c.entails(zb(cond)):
            lost.append(cand)
    if lost:
        raise Restart(lost)
    entry = {n: cut.locs[n] for n in cut.names if n in cut.locs}
    ghosts0 = {n: v for n, v in spec.ghosts(cut.S, zero).items()}
    # havoc
    c.abstract = True
    cut.k = z3.Int(c.fresh_name("k_" + spec.name))
    c.add(cut.k >= 0)
    if cut.n is not None:
        c.add(cut.k <= cut.n)
    cut.h = dict(spec.havoc(cut.S, cut.k) or {})
    for name in cut.h:
        if name not in cut.names and name not in used:
            raise Unsupported("loop contract rebinds '%s', which the loop does not use" % name)
    for name, old in entry.items():
        if name in cut.h:
            continue
        if isinstance(old, (bool, SBool)):
            cut.h[name] = SBool(z3.Bool(c.fresh_name("lv_" + name)))
        elif scalar(old):
            val = SInt(z3.Int(c.fresh_name("lv_" + name)))
            cut.h[name] = val
            cut.autos.append((name, old))
        elif name == "_comp" and getattr(old, "vc", None) is not None:
            cut.h[name] = old  # the contract filled it in place
        else:
            cut.h[name] = Poison(name)
    cut.S.locals.update(cut.h)
    ghosts = dict(spec.ghosts(cut.S, cut.k))
    ghosts["k"] = mk(cut.k)
    ghosts0["k"] = 0
    # candidate invariants for other integer locals (Houdini)
    for name, old in cut.autos:
        for gname in list(ghosts) + [None]:
            cand = (cut.key, name, gname)
            if cand in c.houdini_dead:
                continue
            if gname is None:
                c.add(zb(cut.h[name] == old))
            else:
                c.add(zb(cut.h[name] - old == ghosts[gname] - ghosts0[gname]))
    cut.entry = entry
    cut.ghosts0 = ghosts0
    for nm, cond in spec.inv(cut.S, cut.k):
        c.add(zb(cond))
    for nm, cond in spec.maybe(cut.S, cut.k):
        if (cut.key, "maybe", nm) not in c.houdini_dead:
            c.add(zb(cond))
    if c._check() == z3.unsat:
        raise PathEnd("invariant state empty")
    roots = {"g": c.g}
    for name, val in cut.S.locals.items():
        if not name.startswith("_vc_"):
            roots[name] = val
    cut.snap = heap.snapshot(roots)
    cut.roots = roots
    return cut


def go_on(cut, again):
    """The head of a loop over a collection: one more round, or the exit."""
    c, spec = core.CUR, cut.spec
    if not again:
        c.cover("%s: exit" % spec.name)
        cut.phase = 3
        spec.leave(cut.S, cut.k)
        return False
    c.cover("%s: iteration" % spec.name)
    item = cut.item = cut.seq.base_at(cut.k)
    cut.got = item if cut.indices is None else cut.indices.base_at(cut.k)
    spec.step_begin(cut.S, cut.k, item)
    return True


@guarded
def counted_test(cut, again):
    if not core.CUR.entails(cut.k < cut.n if again else cut.k == cut.n):
        raise Unsupported("loop '%s' does not count the elements" % cut.spec.name)
    return go_on(cut, again)


def wtest(cut, test):
    """The value of a while loop's test."""
    c = core.CUR
    if c is None or not c.symbolic:
        return test
    if isinstance(cut, WhileFree):
        test = bool(test)
        if cut.mark is not None and len(c.trail) > cut.mark:
            c.unrolling()
        return test
    if cut.counted:
        return counted_test(cut, bool(test))
    return test


def wbreak(cut):
    """A while loop is left early."""
    c = core.CUR
    if c is not None and isinstance(cut, WhileFree) and cut.mark is not None and len(c.trail) > cut.mark:
        c.unrolling()


@guarded
def advance(cut, locs):
    """First visit: havoced head. Second visit: check preservation."""
    c = core.CUR
    if c.dead:
        raise PathEnd("dead")
    spec = cut.spec
    if cut.phase == 0:
        cut.phase = 1
        cut.S.locals.update(locs)
        if cut.seq is not None:
            c.indices = list(c.indices) + [cut.k]
            if cut.counted:
                return True
            return go_on(cut, c.branch(cut.k < cut.n))
        return True
    if cut.phase == 1:
        cut.phase = 2
        c.cover("%s: preserved" % spec.name)
        S = cut.S
        S.locals.update(locs)
        spec.step_end(S, cut.k)
        nxt = z3.simplify(cut.k + 1)
        for nm, cond in spec.inv(S, nxt):
            c.check("%s: invariant '%s' preserved" % (spec.name, nm), cond, abstract=True)
        lost = []
        for nm, cond in spec.maybe(S, nxt):
            cand = (cut.key, "maybe", nm)
            if cand not in c.houdini_dead and not c.entails(zb(cond)):
                lost.append(cand)
        ghosts = dict(spec.ghosts(S, nxt))
        ghosts["k"] = mk(nxt)
        for name, old in cut.autos:
            for gname in list(ghosts) + [None]:
                cand = (cut.key, name, gname)
                if cand in c.houdini_dead:
                    continue
                now = locs.get(name)
                if not scalar(now):
                    ok = False
                elif gname is None:
                    ok = c.entails(zb(now == old))
                else:
                    ok = c.entails(zb(now - old == ghosts[gname] - cut.ghosts0[gname]))
                if not ok:
                    lost.append(cand)
        if lost:
            raise Restart(lost)
        allowed = spec.modifies(S)
        for obj, path, lab, old, new in heap.diff(cut.snap, heap.snapshot(cut.roots)):
            if any(obj is a for a in allowed):
                continue
            if lab in ("acquires", "releases") and type(obj).__module__ == "pyvc.models_threading":
                continue
            if lab == "cachevals" or (isinstance(obj, list) and path.endswith("cachevals")):
                continue
            if spec.frame_ok(S, obj, path, lab, old, new):
                continue
            raise Unsupported(
                "loop '%s' modifies %s.%s, which its contract does not allow" % (spec.name, path, lab)
            )
        raise PathEnd("loop body done")
    raise PathEnd("loop re-entered")


def comp_cut(spec, fn, seq, elem=None):
    """A comprehension under contract: a loop that collects its elements."""
    code = fn.__code__
    locs = {}
    for name, cell in zip(code.co_freevars, fn.__closure__ or ()):
        try:
            locs[name] = cell.cell_contents
        except ValueError:
            pass
    cut = cut_begin(Cut(spec, (code.co_qualname, code.co_firstlineno), seq, locs, ()), ())
    while advance(cut, locs):
        spec.comp_item(cut.S, cut.k, (elem or fn)(cut.item))
    return spec.comp_result(cut.S, cut.k)


def comp_locals(fn, filt):
    """What a comprehension sees: the locals around it, without the
    collections, and what its expressions refer to."""
    frame = sys._getframe(3)  # pylint: disable=protected-access
    while frame.f_globals.get("__name__", "").startswith("pyvc.") and frame.f_back is not None:
        frame = frame.f_back
    locs = {n: x for n, x in frame.f_locals.items() if not n.startswith("_vc_") and not isinstance(x, (list, dict))}
    for part in (fn, filt):
        for name, cell in zip(part.__code__.co_freevars, part.__closure__ or ()) if part else ():
            try:
                locs[name] = cell.cell_contents
            except ValueError:
                pass
    return locs


def comp_begin(spec, fn, filt, seq, res):
    code = fn.__code__
    locs = comp_locals(fn, filt)
    names = ()
    if res is not None:
        names, locs["_comp"] = ("_comp",), res
    cut = cut_begin(Cut(spec, (code.co_qualname, code.co_firstlineno), seq, locs, names), ())
    if set(cut.h) - {"_comp"}:
        raise Unsupported("contract '%s' rebinds locals around a comprehension" % spec.name)
    locs.update(cut.h)
    if isinstance(locs.get("_comp"), Poison):
        raise Unsupported("contract '%s' says nothing about the result of a comprehension" % spec.name)
    return cut, locs


def item_args(cut, star):
    from .runtime import unpack

    return unpack(cut.item, star) if star else (cut.item,)


def comp_loop(spec, fn, filt, seq, res, add, star=False):
    """A comprehension as the loop it abbreviates, under that loop's contract.

    add(res, element) puts one element into the result."""
    cut, locs = comp_begin(spec, fn, filt, seq, res)
    while advance(cut, locs):
        args = item_args(cut, star and fn.__code__.co_argcount)
        if filt is None or filt(*args):
            add(locs["_comp"], fn(*args))
    return locs["_comp"]


def fold_loop(spec, kind, fn, filt, seq, star=False):
    """sum(), any() and all() of a generator, in the same way."""
    cut, locs = comp_begin(spec, fn, filt, seq, 0 if kind == "sum" else None)
    while advance(cut, locs):
        args = item_args(cut, star and fn.__code__.co_argcount)
        if filt is not None and not filt(*args):
            continue
        val = fn(*args)
        if kind == "sum":
            locs["_comp"] = locs["_comp"] + val
        elif bool(val) == (kind == "any"):
            return kind == "any"
    return locs["_comp"] if kind == "sum" else kind == "all"


class Restart(BaseException):
    """Candidate invariants are not inductive: drop them and redo the unit."""

    def __init__(self, cands):
        super().__init__(str(cands))
        self.cands = cands
        core.CUR.dead = True


def more(cut, locs):
    if isinstance(cut, (Native, Unrolled)):
        try:
            cut.got = next(cut.it)
        except StopIteration:
            return False
        return True
    return advance(cut, locs)


def wmore(cut, locs):
    if isinstance(cut, WhileFree):
        if cut.limit is None:
            return True
        c = core.CUR
        if c is None:
            return True
        if c.dead:
            raise PathEnd("dead")
        # only iterations that depend on symbolic decisions count
        if cut.mark is not None and len(c.trail) > cut.mark:
            cut.count += 1
            c.unrolling()
        cut.mark = len(c.trail)
        if cut.count > cut.limit:
            c.note_bounded("while loop %s:%d cut at %d iterations" % (cut.key + (cut.limit,)))
            raise PathEnd("unrolling bound")
        return True
    return advance(cut, locs)
