"""C23: managed time is the scaled real time, for everyone."""
from fractions import Fraction

from pyvc.api import search, unit
from pyvc.loops import LoopSpec

KEEPER = "vtelem.classes.time_keeper:TimeKeeper."
ENTITY = "vtelem.classes.time_entity:TimeEntity."
FUNCS = [KEEPER + n for n in ("__init__", "iteration", "add_slave", "set_slaves", "scale", "sleep")] + \
    [ENTITY + n for n in ("advance_time", "set_time", "get_time")]


def exact(v, name, lo=None, hi=None):
    """Any real; concrete runs use values that floats compute with exactly."""
    if v.symbolic:
        return v.real(name, lo, hi)
    val = v.real(name, -(2 ** 18) if lo is None else lo, 2 ** 18 if hi is None else hi)
    return float(Fraction(round(val * 2 ** 10), 2 ** 10))


def scalar(v, name, lo=0):
    if v.symbolic:
        return v.real(name, lo)
    return v.choose(name, [x for x in (0.0, 0.25, 0.5, 1.0, 2.0, 3.0, 16.0, 1.5, 0.125) if lo is None or x >= lo])


class Follower:
    """Something whose time is managed."""

    def __init__(self, v, i):
        self.v = v
        self.i = i

    def set_time(self, time):
        self.v.g.told(self.i, time)


class Followers(LoopSpec):
    """The first k followers, each once, have been told the time."""

    name = "followers"
    tag = "followers"

    def inv(self, S, k):
        return [("each follower so far was told", S.g.count == k)]

    def havoc(self, S, k):
        S.g.count = S.ctx.int("told", 0)
        return {}

    def modifies(self, S):
        return [S.g]


def keeper_of(v, slaves=True):
    """A keeper in any state its operations reach."""
    from vtelem.classes.time_keeper import TimeKeeper

    g = v.g
    g.v = v
    g.now = exact(v, "start")
    g.slept = []
    g.count = 0
    s0 = scalar(v, "initial scale")
    keeper = TimeKeeper("time", v.choose("rate", [0.5]), s0, lambda: g.now, g.slept.append)
    g.init = g.now
    v.check("time starts at the clock", keeper.get_time() == g.now)
    if v.choose("moved", [False, True]):
        keeper.set_time(exact(v, "time"))
    g.scale = s0
    if v.choose("scaled", [False, True]):
        g.scale = scalar(v, "scale")
        keeper.scale(g.scale)
    g.n = 0
    if slaves:
        if v.symbolic:
            seq = v.seq("followers", lambda i: Follower(v, i))
            g.n = seq.length()
            keeper.slaves = seq
        else:
            g.n = v.int("followers", 0, 6)
            g.told = lambda i, t: None
            for i in range(g.n):
                keeper.add_slave(Follower(v, i))

    def told(i, time):
        v.check("followers are told once, in turn", v.same(i, g.count))
        v.check("every follower gets the managed time", time == g.expect)
        g.count = g.count + 1

    g.told = told
    return keeper


@unit("C23/tick", props="C23", funcs=FUNCS, loops=[Followers])
def u_tick(v):
    g = v.g
    keeper = keeper_of(v)
    for step in range(2):
        before = keeper.get_time()
        then = g.now
        g.now = exact(v, "now%d" % step)
        g.expect = before + (g.now - then) * g.scale
        g.count = 0
        keeper.iteration()
        v.check("time advances by the scaled elapsed time", keeper.get_time() == g.expect)
        v.check("never backwards", v.Implies(g.now >= then, keeper.get_time() >= before))
        v.check("every follower was told", v.same(g.count, g.n))
    v.check("nothing slept", not g.slept)


@unit("C23/scale", props="C23", funcs=FUNCS)
def u_scale(v):
    g = v.g
    keeper = keeper_of(v, False)
    before, then = keeper.get_time(), g.now
    s = exact(v, "requested")
    keeper.scale(s)
    v.check("changing the scale does not change the time", keeper.get_time() == before)
    want = v.Ite(s >= 0, s, g.scale)
    g.now = exact(v, "now")
    keeper.iteration()
    v.check("a negative scale is refused, another is in force", keeper.get_time() == before + (g.now - then) * want)


@unit("C23/sleep", props="C23", funcs=FUNCS)
def u_sleep(v):
    g = v.g
    keeper = keeper_of(v, False)
    amount = exact(v, "amount", 0)
    before = keeper.get_time()
    out = v.outcome(lambda: keeper.sleep(amount))
    v.check("sleeping does not fail", out[0] == "ok")
    if out[0] != "ok":
        return
    v.check("sleeps once", len(g.slept) == 1)
    if g.scale > 0:
        if v.symbolic:
            v.check("sleep is scaled inversely", g.slept[0] * g.scale == amount)
        else:
            v.check("sleep is scaled inversely", g.slept[0] == amount / g.scale)
    else:
        v.check("finite when time stands still", g.slept[0] >= 0)
    v.check("sleeping does not change the time", keeper.get_time() == before)


@unit("C23/new", props="C23", funcs=FUNCS)
def u_new(v):
    from vtelem.classes.time_keeper import TimeKeeper

    g = v.g
    s = exact(v, "scale")
    now = exact(v, "now")
    g.slept = []
    out = v.outcome(lambda: TimeKeeper("time", 0.5, s, lambda: now, g.slept.append))
    v.check("refused exactly with a negative scale", v.Iff(out[0] == "raise", s < 0))


@unit("C23/follow", props="C23", funcs=FUNCS + ["vtelem.daemon:DaemonBase.__init__", "vtelem.daemon.synchronous:Daemon.__init__"])
def u_follow(v):
    """Followers of any kind share the time from when they join."""
    from vtelem.classes.time_entity import TimeEntity
    from vtelem.daemon.synchronous import Daemon

    g = v.g
    keeper = keeper_of(v, False)
    first = TimeEntity(exact(v, "other time"))
    keeper.add_slave(first)
    v.check("joins at the managed time", first.get_time() == keeper.get_time())
    then, before = g.now, keeper.get_time()
    if v.choose("ticked", [False, True]):
        g.now = exact(v, "now")
        keeper.iteration()
        before = before + (g.now - then) * g.scale
        then = g.now
    second = Daemon("follower", lambda: None, 1.0, time_keeper=keeper)
    v.check("a daemon joins at the managed time", second.get_time() == before)
    g.now = exact(v, "later")
    keeper.iteration()
    want = before + (g.now - then) * g.scale
    for who in (keeper, first, second):
        v.check("the same time for all", who.get_time() == want)
    alone = exact(v, "alone")
    first.advance_time(alone)
    v.check("advancing adds the amount", first.get_time() == want + alone)
    v.check("to nobody else", v.And(keeper.get_time() == want, second.get_time() == want))
    keeper.set_slaves()
    v.check("the keeper's time wins", first.get_time() == want)
    g.slept.clear()
    amount = exact(v, "amount", 0)
    v.assume(g.scale > 0)
    second.function["sleep"](amount)
    v.check("followers sleep in managed time", len(g.slept) == 1)
    if v.symbolic:
        v.check("scaled", g.slept[0] * g.scale == amount)
    else:
        v.check("scaled", g.slept[0] == amount / g.scale)


@search("C23")
def search_history(v):
    """Any history of ticks, scale changes and followers."""
    from vtelem.classes.time_entity import TimeEntity
    from vtelem.classes.time_keeper import TimeKeeper

    now = [exact(v, "start")]
    slept = []
    s = scalar(v, "s0")
    keeper = TimeKeeper("time", 0.5, s, lambda: now[0], slept.append)
    time, last, team = Fraction(now[0]), Fraction(now[0]), []
    for _ in range(v.int("steps", 1, 40)):
        op = v.choose("op", ["tick", "tick", "scale", "bad", "add", "sleep", "set", "clock"])
        if op == "tick":
            now[0] += abs(exact(v, "dt", 0, 64))
            keeper.iteration()
            time += (Fraction(now[0]) - last) * Fraction(s)
            last = Fraction(now[0])
            for f in team:
                v.check("followers share the time", f.get_time() == keeper.get_time())
        elif op == "scale":
            s = scalar(v, "s")
            keeper.scale(s)
        elif op == "bad":
            keeper.scale(v.choose("bad", [-1.0, -0.5, -1e-9]))
        elif op == "add":
            team.append(TimeEntity())
            keeper.add_slave(team[-1])
            v.check("joins at the managed time", team[-1].get_time() == keeper.get_time())
        elif op == "sleep":
            slept.clear()
            keeper.sleep(2.0)
            v.check("inverse scale", slept == [2.0 / s] if s else len(slept) == 1)
        elif op == "set":
            t = exact(v, "t", 0, 1024)
            keeper.set_time(t)
            time = Fraction(t)
        else:
            now[0] += exact(v, "dt", 0, 64)
        if time.denominator <= 2 ** 22 and abs(time) < 2 ** 30:
            v.check("exact", Fraction(keeper.get_time()) == time)
