"""C17: managed daemons are acted on once, after their dependencies."""
from pyvc.api import search, unit
from pyvc.loops import LoopSpec

from ._common import free

M = "vtelem.daemon.manager:DaemonManager."
FUNCS = [M + n for n in ("add_daemon", "get", "perform_stack", "perform_all", "perform_str_all", "perform", "perform_str")] + [
    "vtelem.enums.daemon:str_to_operation"]


def T(cond):
    from pyvc.sym import mk

    return mk(cond)


def var(name="n"):
    import z3

    from pyvc import core

    return z3.Int(core.CUR.fresh_name(name))


class Fails(Exception):
    """Raised by a daemon."""


# -- the abstract state of a traversal ----------------------------------------
class Graph:
    """m registered daemons with any number of dependencies each, no cycles.

    Names are opaque. key(i) is the i-th registered name, at() its inverse,
    dep(n, j) the j-th of nd(n) dependencies, rank() decreases along them.
    """

    def __init__(self, v):
        import z3

        from vtelem.daemon.manager import DaemonManager

        from pyvc.sym import SInt, SMap, SSeq, mk, zint

        self.v = v
        I, B = z3.IntSort(), z3.BoolSort()
        F = lambda nm, *s: z3.Function(v.fresh_name(nm), *s)
        self.key, self.at = F("key", I, I), F("at", I, I)
        self.nd, self.dep, self.rank, self.out = F("nd", I, I), F("dep", I, I, I), F("rank", I, I), F("out", I, B)
        self.m = v.int("m", 0).t
        i, n, j = var("i"), var("n"), var("j")
        c = v
        c.add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.m), self.at(self.key(i)) == i)))
        c.add(z3.ForAll([n], self.nd(n) >= 0))
        c.add(z3.ForAll([n, j], z3.Implies(self.is_dep(n, j), self.rank(self.dep(n, j)) < self.rank(n))))
        self.has_deps = F("listed", I, B)
        c.add(z3.ForAll([n], z3.Implies(z3.Or(z3.Not(self.known(n)), z3.Not(self.has_deps(n))), self.nd(n) == 0)))
        self.done = lambda n: z3.BoolVal(False)       # ghost: performed
        self.ran = lambda n: z3.BoolVal(False)        # names with a result
        self.probe = v.int("probe").t
        self.closed = v.bool("every dependency is registered")
        if self.closed:
            c.add(z3.ForAll([n, j], z3.Implies(z3.And(self.known(n), self.is_dep(n, j)), self.known(self.dep(n, j)))))
        self.manager = DaemonManager()
        self.manager.daemons = SMap(lambda s: mk(self.known(zint(s))), lambda s: Worker(self, s), keys=lambda i: SInt(self.key(zint(i))),
                                    n=self.m, tag="daemons", name="daemons", default=lambda: None)

        def deps(s):
            t = zint(s)
            if not v.branch(self.has_deps(t)):
                return None
            return SSeq(self.nd(t), lambda j: SInt(self.dep(t, zint(j))), tag="deps")

        self.manager.depends_on = SMap(lambda s: mk(self.known(zint(s))), deps, default=lambda: None, name="depends_on")

    def known(self, n):
        import z3

        i = self.at(n)
        return z3.And(i >= 0, i < self.m, self.key(i) == n)

    def is_dep(self, n, j):
        import z3

        return z3.And(j >= 0, j < self.nd(n))

    def good(self, n):
        import z3

        return z3.And(self.known(n), self.out(n))


class Worker:
    """A daemon: any outcome; checks that it is called once and in time."""

    def __init__(self, graph, name):
        from pyvc.sym import zint

        self.graph, self.n = graph, zint(name)

    def perform(self, operation, *args, **kwargs):
        import z3

        g, n = self.graph, self.n
        v, j = g.v, g.v.int("some dependency").t
        v.check("the operation and its arguments are passed on",
                operation is g.operation and args == (7,) and kwargs == {"word": "x"})
        v.check("a daemon is acted on at most once", T(z3.Not(g.done(n))))
        v.check("after each of its dependencies",
                T(z3.Implies(z3.And(g.is_dep(n, j), g.known(g.dep(n, j))), g.done(g.dep(n, j)))))
        v.check("under the manager's lock", g.manager.lock.lock.depth > 0)
        old = g.done
        g.done = lambda k: z3.Or(k == n, old(k))
        return T(g.out(n))


class Stack:
    """A list of names as a height and a content."""

    def __init__(self, height, item):
        self.h, self.item = height, item

    def __bool__(self):
        return bool(T(self.h > 0))

    def pop(self, *_):
        import z3

        from pyvc.sym import SInt

        if _ or not self:
            from pyvc.core import Unsupported

            raise Unsupported("pop")
        self.h = z3.simplify(self.h - 1)
        return SInt(self.item(self.h))

    def append(self, name):
        import z3

        from pyvc.sym import zint

        h, old, n = self.h, self.item, zint(name)
        self.item = lambda p: z3.If(p == h, n, old(p))
        self.h = z3.simplify(h + 1)

    def __iadd__(self, todo):
        import z3

        h, old = self.h, self.item
        self.item = lambda p: z3.If(p >= h, todo.item(p - h), old(p))
        self.h = z3.simplify(h + todo.n)
        return self

    def extend(self, todo):
        self += todo


class Names:
    """A set of names kept by the code (as a list or set)."""

    def __init__(self, has):
        self.has = has

    def __contains__(self, name):
        from pyvc.sym import zint

        return bool(T(self.has(zint(name))))

    def append(self, name):
        import z3

        from pyvc.sym import zint

        old, n = self.has, zint(name)
        self.has = lambda k: z3.Or(k == n, old(k))

    add = append


class Todo:
    """The dependencies collected so far: the i-th is number src(i)."""

    def __init__(self, n, item, src, idx):
        self.n, self.item, self.src, self.idx = n, item, src, idx

    def __bool__(self):
        return bool(T(self.n > 0))

    def append(self, name):
        import z3

        from pyvc.sym import zint

        n, item, src, idx, nm, k = self.n, self.item, self.src, self.idx, zint(name), self.k
        self.item = lambda i: z3.If(i == n, nm, item(i))
        self.src = lambda i: z3.If(i == n, k, src(i))
        self.idx = lambda j: z3.If(j == k, n, idx(j))
        self.n = z3.simplify(n + 1)


def fun(v, name, *sorts):
    import z3

    f = z3.Function(v.fresh_name(name), *sorts)
    return lambda *a: f(*a)


class Collect(LoopSpec):
    """The pending dependencies of one daemon, each with its place."""

    name = "dependencies"
    tag = "deps"

    def target(self, S):
        from pyvc.core import Unsupported

        names = [n for n, x in S.locals.items() if not n.startswith("_vc") and (
            isinstance(x, Todo) or (isinstance(x, list) and not x))]
        if len(names) != 1:
            raise Unsupported("no single list of pending dependencies")
        return names[0]

    def havoc(self, S, k):
        import z3

        I = z3.IntSort()
        c = S.ctx
        n = z3.Int(c.fresh_name("pending"))
        todo = Todo(n, fun(c, "pend", I, I), fun(c, "src", I, I), fun(c, "idx", I, I))
        todo.k = k
        return {self.target(S): todo}

    def inv(self, S, k):
        import z3

        g, todo = S.g.world, S.locals[self.target(S)]
        if isinstance(todo, list):
            return []
        done = S.g.executed.has
        i, j = var("i"), var("j")
        dep = lambda j: g.dep(S.g.curr, j)
        return [
            ("count", T(todo.n >= 0)),
            ("only pending dependencies", T(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < todo.n), z3.And(
                todo.src(i) >= 0, todo.src(i) < k, todo.item(i) == dep(todo.src(i)), z3.Not(done(todo.item(i)))))))),
            ("all pending dependencies", T(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k, z3.Not(done(dep(j)))), z3.And(
                todo.idx(j) >= 0, todo.idx(j) < todo.n, todo.item(todo.idx(j)) == dep(j)))))),
        ]

    def modifies(self, S):
        return [S.locals[self.target(S)]] + caches(S.g.world)


def caches(g):
    return [g, g.manager.daemons, g.manager.daemons.cache, g.manager.daemons.overlay,
            g.manager.depends_on, g.manager.depends_on.cache, g.manager.depends_on.overlay]


class Traverse(LoopSpec):
    """The stack invariant of the traversal."""

    name = "traverse"

    def match_while(self, key, n, locs):
        return key.endswith("DaemonManager.perform_stack")

    def havoc(self, S, k):
        import z3

        from pyvc.sym import SBool, SInt, SMap, become, mk, zint

        g, c = S.g.world, S.ctx
        I, B = z3.IntSort(), z3.BoolSort()
        ran = fun(c, "ran", I, B)
        S.g.executed = Names(ran)
        S.g.waits = Names(fun(c, "waits", I, B))
        S.g.stack = Stack(z3.Int(c.fresh_name("height")), fun(c, "stacked", I, I))
        g.done = fun(c, "done", I, B)
        S.g.wpos, S.g.dpos = fun(c, "wpos", I, I), fun(c, "dpos", I, I, I)
        order, where = fun(c, "order", I, I), fun(c, "where", I, I)
        S.g.count = z3.Int(c.fresh_name("results"))
        i, n = var("i"), var("n")
        # a finite mapping has an enumeration of its keys
        c.add(S.g.count >= 0)
        c.add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < S.g.count), z3.And(ran(order(i)), where(order(i)) == i))))
        c.add(z3.ForAll([n], z3.Implies(ran(n), z3.And(where(n) >= 0, where(n) < S.g.count, order(where(n)) == n))))
        S.g.order = order
        smap = SMap(lambda s: mk(ran(zint(s))), lambda s: SBool(z3.simplify(g.good(zint(s)))), keys=lambda i: SInt(order(zint(i))),
                    n=S.g.count, tag="results", name="results")
        S.g.results = smap
        # ghost: the daemon this iteration works on, and its place
        S.g.at = z3.simplify(S.g.stack.h - 1)
        S.g.curr = z3.simplify(S.g.stack.item(S.g.at))
        S.g.waited = S.g.waits.has
        S.g.step = None
        become(S.locals["results"], smap)
        return {"name_stack": S.g.stack, "executed": S.g.executed, "waiting": S.g.waits}

    def inv(self, S, k):
        import z3

        from pyvc.sym import SInt, SMap, Iff, same, real

        g = S.g.world
        none = lambda *_: z3.BoolVal(False)
        st, ex, wt, res = (S.locals[n] for n in ("name_stack", "executed", "waiting", "results"))
        res = real(res)
        if isinstance(st, Stack):
            h, item = st.h, st.item
        else:
            h, item = st.n, g.key
        ran = ex.has if isinstance(ex, Names) else none
        waits = wt.has if isinstance(wt, Names) else none
        wpos = getattr(S.g, "wpos", lambda n: z3.IntVal(0))
        dpos = getattr(S.g, "dpos", lambda n, j: z3.IntVal(0))
        todo = getattr(S.g, "step", None)
        if todo is not None:
            wpos0, dpos0, curr, at = wpos, dpos, S.g.curr, S.g.at
            wpos = lambda n: z3.If(n == curr, at, wpos0(n))
            dpos = lambda n, j: z3.If(n == curr, at + 1 + todo.idx(j), dpos0(n, j))
        n, p, j = var("n"), var("p"), var("j")
        wait = lambda n: z3.And(waits(n), z3.Not(ran(n)))
        out = [
            ("height", T(h >= 0)),
            ("nothing is forgotten", T(z3.ForAll([n], z3.Implies(z3.And(g.known(n), z3.Not(ran(n))), z3.And(
                g.at(n) < h, item(g.at(n)) == n))))),
            ("waiting daemons are stacked", T(z3.ForAll([n], z3.Implies(wait(n), z3.And(
                wpos(n) >= 0, wpos(n) < h, item(wpos(n)) == n))))),
            ("below what they wait for", T(z3.ForAll([n, p], z3.Implies(z3.And(wait(n), p > wpos(n), p < h),
                                                                    g.rank(item(p)) < g.rank(n))))),
            ("with all of it", T(z3.ForAll([n, j], z3.Implies(z3.And(wait(n), g.is_dep(n, j)), z3.Or(
                ran(g.dep(n, j)), z3.And(dpos(n, j) > wpos(n), dpos(n, j) < h, item(dpos(n, j)) == g.dep(n, j))))))),
            ("dependencies came first", T(z3.ForAll([n, j], z3.Implies(z3.And(ran(n), g.is_dep(n, j)), ran(g.dep(n, j)))))),
            ("a result means performed", T(z3.ForAll([n], g.done(n) == z3.And(ran(n), g.known(n))))),
        ]
        if g.closed:
            out.append(("only registered daemons", T(z3.And(
                z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < h), g.known(item(p)))),
                z3.ForAll([n], z3.Implies(ran(n), g.known(n)))))))
        name = SInt(g.probe)
        if isinstance(res, SMap):
            out.append(("exactly the results so far", Iff(res.contains_term(name), T(ran(g.probe)))))
            if res.overlay:
                for key, val in res.overlay:
                    out.append(("the daemon's own result", same(val, T(g.good(key.t)))))
        else:
            out.append(("no results yet", len(res) == 0))
        return out

    def step_end(self, S, k):
        # ghost: a daemon put to wait, and where its dependencies are
        todo = [x for x in S.locals.values() if isinstance(x, Todo)]
        S.g.step = todo[0] if todo and S.g.waits.has is not S.g.waited else None

    def modifies(self, S):
        g = S.g.world
        return caches(g) + [S.g.stack, S.g.executed, S.g.waits, S.g.results, S.g.results.overlay, S.g.results.cache,
                            S.locals["results"], S.g]


class Tally(LoopSpec):
    """Failures are counted exactly when some result is one."""

    name = "tally"
    tag = "results"

    def counters(self, S):
        known = getattr(S.cut, "entry", None) or S.cut.locs
        return [n for n in S.cut.names if n in known and type(S.locals[n]).__name__ in ("int", "SInt")]

    def flags(self, S):
        """Flags that tell whether there were failures: (name, value before)"""
        known = getattr(S.cut, "entry", None) or S.cut.locs
        return [(n, known[n]) for n in S.cut.names if type(known.get(n)) is bool]

    def havoc(self, S, k):
        out = {n: S.ctx.int("counted") for n in self.counters(S)}
        out.update({n: S.ctx.bool("flag") for n, _ in self.flags(S)})
        return out

    def inv(self, S, k):
        import z3

        from pyvc.sym import zb, zint

        g = S.g.world
        names = self.counters(S)
        i, j = var("i"), var("j")
        bad = lambda i: z3.And(i >= 0, i < k, z3.Not(g.good(S.g.order(i))))
        out = []
        for nm in names:
            f = zint(S.locals[nm])
            out.append(("count", T(f >= 0)))
            out.append(("failures are seen", T(z3.ForAll([i], z3.Implies(bad(i), f > 0)))))
            out.append(("only failures are", T(z3.Implies(f > 0, z3.Exists([j], bad(j))))))
        for nm, was in self.flags(S):
            flag = zb(S.locals[nm])
            seen = z3.Not(flag) if was else flag
            out.append(("failures are seen", T(z3.ForAll([i], z3.Implies(bad(i), seen)))))
            out.append(("only failures are", T(z3.Implies(seen, z3.Exists([j], bad(j))))))
        return out

    def modifies(self, S):
        return [S.g.results, S.g.results.cache] + caches(S.g.world)


@unit("C17/all", props="C17", funcs=[M + "perform_all", M + "perform_stack", M + "perform"], loops=[Traverse, Collect, Tally],
      concrete=False, weight=3, opts={"branch_ms": 500, "mbqi": False})
def u_all(v):
    """Any acyclic graph of any number of daemons."""
    import z3

    from vtelem.enums.daemon import DaemonOperation

    g = v.g.world = Graph(v)
    v.g.executed = Names(lambda n: z3.BoolVal(False))
    g.operation = v.choose("operation", [DaemonOperation.START, DaemonOperation.STOP])
    how = v.choose("how", ["enum", "text"])
    call = g.manager.perform_all if how == "enum" else g.manager.perform_str_all
    out = v.outcome(lambda: call(g.operation if how == "enum" else g.operation.name.lower(), 7, word="x"))
    v.check("completes", out[0] == "ok")
    n = var("n")
    v.check("every daemon was acted on", T(z3.ForAll([n], z3.Implies(g.known(n), g.done(n)))))
    v.check("only registered daemons were", T(z3.ForAll([n], z3.Implies(g.done(n), g.known(n)))))
    success = out[1]
    every = T(z3.ForAll([n], z3.Implies(g.known(n), g.out(n))))
    v.check("success means every operation succeeded", v.Implies(success, every))
    if g.closed:
        v.check("every operation succeeded means success", v.Implies(every, success))
    v.check("the lock is free", g.manager.lock.lock.depth == 0)


# -- single daemons --------------------------------------------------------------
class Plain:
    """A daemon as the manager sees it."""

    def __init__(self, name, log, result=True, fails=False):
        self.name, self.log, self.result, self.fails = name, log, result, fails

    def perform(self, operation, *args, **kwargs):
        self.log.append((self, operation, args, kwargs))
        if self.fails:
            raise Fails
        return self.result

    def get_state_str(self):
        return "idle"


def managed(v, log):
    """A manager of any daemons, one of them called 'name'."""
    from vtelem.daemon.manager import DaemonManager

    manager = DaemonManager()
    others = Plain("other", log)
    name = v.str("name")
    v.assume(v.Not(v.same(name, "all")))
    known = v.bool("registered")
    if v.symbolic:
        import z3

        from pyvc.sym import And, Not, SMap, mk, same, zstr

        has = z3.Function(v.fresh_name("registered"), z3.StringSort(), z3.BoolSort())
        v.g.has = lambda k: And(mk(has(zstr(k))), Not(same(k, name)))
        manager.daemons = SMap(v.g.has, lambda k: others, default=lambda: None, name="daemons")
        manager.depends_on = SMap(v.g.has, lambda k: None, default=lambda: None, name="depends")
    else:
        for i in range(v.int("others", 0, 3)):
            nm = "other_%d" % i
            if nm != name:
                manager.daemons[nm] = others
                manager.depends_on[nm] = None
        v.g.has = lambda k, seen=tuple(manager.daemons): k in seen
    daemon = Plain(name, log, v.bool("result"), v.bool("fails"))
    if known:
        manager.daemons[name] = daemon
        manager.depends_on[name] = None
    return manager, daemon, known


def holds(v, manager, name):
    return manager.daemons.contains_term(name) if v.symbolic and hasattr(manager.daemons, "contains_term") else name in manager.daemons


def unlocked(v, manager):
    return free(v, manager.lock)


@unit("C17/one", props="C17", funcs=[M + "perform", M + "perform_str"])
def u_one(v):
    from vtelem.enums.daemon import DaemonOperation

    log = []
    manager, daemon, known = managed(v, log)
    op = v.choose("operation", list(DaemonOperation))
    text = v.choose("text", [None, "lower", "upper", "unknown"])
    if text is None:
        out = v.outcome(lambda: manager.perform(daemon.name, op, 1, two=2))
    else:
        word = {"lower": op.name.lower(), "upper": op.name, "unknown": "bogus"}[text]
        out = v.outcome(lambda: manager.perform_str(daemon.name, word, 1, two=2))
    acts = known and text != "unknown"
    v.check("acted on exactly once if registered", len(log) == (1 if acts else 0))
    if acts:
        v.check("the named daemon, with everything passed on",
                log[0][0] is daemon and log[0][1] is op and log[0][2] == (1,) and log[0][3] == {"two": 2})
    if acts and daemon.fails:
        v.check("its exception is passed on", out[0] == "raise" and out[1] is Fails)
    else:
        v.check("reports the daemon's result, or failure", out[0] == "ok" and v.same(out[1], v.And(acts, daemon.result)))
    v.check("the name is as registered as before", v.Iff(holds(v, manager, daemon.name), known))
    v.check("the lock is free", unlocked(v, manager))


@unit("C17/text", props="C17", funcs=[M + "perform_str", M + "perform_str_all", "vtelem.enums.daemon:str_to_operation"])
def u_text(v):
    """Any other word is no operation: it is refused, nothing is acted on."""
    from vtelem.enums.daemon import DaemonOperation

    log = []
    manager, daemon, _ = managed(v, log)
    word = v.str("word")
    low = word.lower()
    for op in DaemonOperation:
        v.assume(v.Not(v.same(low, op.name.lower())))
    v.check("no such operation for one", v.Not(manager.perform_str(daemon.name, word)))
    v.check("no such operation for all", v.Not(manager.perform_str_all(word)))
    v.check("nothing is acted on", len(log) == 0)


@unit("C17/add", props="C17", funcs=[M + "add_daemon", M + "get"])
def u_add(v):
    log = []
    manager, daemon, known = managed(v, log)
    new = Plain(daemon.name, log)
    deps = ["other"] if v.bool("dependencies") else None
    look = v.choose("look up first", [False, True])
    if look:
        v.check("an unknown name is None", manager.get(daemon.name) is (daemon if known else None))
    probe = v.str("probe")
    v.assume(v.Not(v.same(probe, daemon.name)))
    had = holds(v, manager, probe)
    v.check("a new name is added, a known one refused", v.Iff(manager.add_daemon(new, deps), not known))
    v.check("registered", manager.get(daemon.name) is (daemon if known else new))
    v.check("with its dependencies", manager.depends_on[daemon.name] is (None if known else deps))
    v.check("other names are unaffected", v.Iff(holds(v, manager, probe), had))
    v.check("the reserved name is refused", v.And(
        v.fails(lambda: manager.add_daemon(Plain("all", log)), AssertionError),
        v.Not(manager.daemons.contains_term("all") if v.symbolic else "all" in manager.daemons)) if not (
            v.symbolic) else v.fails(lambda: manager.add_daemon(Plain("all", log)), AssertionError))
    v.check("nothing is acted on", len(log) == 0)
    v.check("the lock is free", unlocked(v, manager))


@search("C17")
def search_graphs(v):
    """Random graphs, with cycles and unknown dependencies, any order."""
    from vtelem.daemon.manager import DaemonManager
    from vtelem.enums.daemon import DaemonOperation

    r = v.rng
    n = r.choice([1, 2, 3, 5, 8, 13, 40, 300] if r.random() < 0.2 else [1, 2, 3, 4, 5, 6, 9])
    names = ["d%d" % i for i in range(n)]
    shape = r.choice(["random", "chain", "cyclic", "unknown", "star"])
    deps = {}
    for i in range(n):
        if shape == "chain":
            deps[names[i]] = names[max(0, i - 1):i]
        elif shape == "star":
            deps[names[i]] = names[:1] if i else []
        else:
            deps[names[i]] = [names[j] for j in range(i) if r.random() < min(0.5, 12.0 / n)]
    order = names[:]
    r.shuffle(order)
    for x in names:
        r.shuffle(deps[x])
        if r.random() < 0.1 and deps[x]:
            deps[x].append(r.choice(deps[x]))
    if shape == "cyclic":
        x, y = r.choice(names), r.choice(names)
        deps[x].append(y)
        deps[y].append(x)
    if shape == "unknown":
        deps[r.choice(names)].append("ghost")
    manager, log = DaemonManager(), []
    bad = {x for x in names if r.random() < (0.1 if r.random() < 0.5 else 0)}
    daemons = {x: Plain(x, log, x not in bad) for x in names}
    for x in order:
        v.check("added", manager.add_daemon(daemons[x], deps[x] or None))
        if r.random() < 0.2:
            v.check("a second of the same name is refused", not manager.add_daemon(Plain(x, log)))
    for _ in range(2):
        del log[:]
        if r.random() < 0.3:
            v.check("unknown name", not manager.perform("ghost", DaemonOperation.STOP))
            v.check("unknown name has no daemon", manager.get("ghost") is None)
        op = r.choice([DaemonOperation.START, DaemonOperation.STOP])
        out = v.outcome(lambda: manager.perform_all(op, 1, k=2) if r.random() < 0.5 else manager.perform_str_all(
            op.name.lower(), 1, k=2))
        v.check("completes", out[0] == "ok")
        done = [d[0].name for d in log]
        v.check("with the operation and its arguments", all(d[1] is op and d[2] == (1,) and d[3] == {"k": 2} for d in log))
        v.check("at most once each", len(set(done)) == len(done))
        v.check("success exactly when every operation succeeded", out[1] == (not bad and shape not in ("cyclic", "unknown")))
        if shape != "cyclic":
            v.check("every daemon", sorted(done) == sorted(names))
            place = {x: i for i, x in enumerate(done)}
            v.check("after its dependencies", all(place[d] < place[x] for x in names for d in deps[x] if d in place))
        v.check("the lock is free", unlocked(v, manager))
        v.check("states of the registered daemons", sorted(manager.states()) == sorted(names))
