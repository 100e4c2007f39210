"""C18: state machines move only through permitted transitions."""
from pyvc.api import search, unit

S = "vtelem.classes.state:State."
M = "vtelem.classes.state_machine:StateMachine."
FUNCS = [S + n for n in ("__init__", "entering", "run", "leaving")] + [M + n for n in ("__init__", "run", "data")] + [
    "vtelem.channel.group:ChannelGroup.data"]
COUNTS = ("enter_attempts", "enter_successes", "exit_attempts", "exit_successes", "iterations")
TOTALS = ("enter_fails", "exit_fails", "transitions", "iterations")


class Failure(Exception):
    """Raised by a hook."""


def environment(v):
    from vtelem.telemetry.environment import TelemetryEnvironment

    return TelemetryEnvironment(2 ** 10, init_time=1.0, metrics_rate=1.0, app_id_basis=0.5)


class Hooks:
    """Hooks of one state: they record the call and behave in any way."""

    def __init__(self, v, trace, name, say=None):
        self.v, self.trace, self.name, self.say = v, trace, name, say
        self.enter_ok, self.leave_ok = v.bool("enter_ok"), v.bool("leave_ok")
        self.fail = v.choose("fails", ["nothing", "nothing", "run", "leave", "enter"]) if not v.symbolic else \
            v.choose("fails", ["nothing", "run", "leave", "enter"])

    def run(self, data):
        self.trace.append(("run", self.name, data))
        if self.fail == "run":
            raise Failure
        return self.say()

    def leaving(self, to, data):
        self.trace.append(("leave", self.name, to, data))
        if self.fail == "leave":
            raise Failure
        return self.leave_ok

    def entering(self, came, data):
        self.trace.append(("enter", self.name, came, data))
        if self.fail == "enter":
            raise Failure
        return self.enter_ok


def counts(group, names):
    data = group.read()
    return [data[n] for n in names]


@unit("C18/step", props="C18", funcs=FUNCS, weight=3)
def u_step(v):
    """One iteration of a machine with any number of states."""
    from vtelem.classes.state import State
    from vtelem.classes.state_machine import StateMachine

    env = environment(v) if v.bool("metrics") else None
    trace = []
    a, b = v.str("current"), v.str("wanted")
    v.assume(v.Not(v.same(a, b)))
    wants = v.choose("wants", ["stay", "known", "unknown"])
    hooks_a = Hooks(v, trace, a, lambda: a if wants == "stay" else b)
    hooks_b = Hooks(v, trace, b, lambda: b) if wants == "known" else None
    plain = v.bool("no hooks to leave and enter")
    cur = State("cur", hooks_a.run, None if plain else hooks_a.entering, None if plain else hooks_a.leaving, env)
    nxt = State("nxt", hooks_b.run if hooks_b else None, None if plain or hooks_b is None else hooks_b.entering,
                None if plain or hooks_b is None else hooks_b.leaving, env)
    first = State("first", env=None)
    machine = StateMachine("machine", [first], initial_data={"x": 0}, env=env)
    cur.name, nxt.name = a, b
    others = State("other")
    if v.symbolic:
        import z3

        from pyvc.sym import Not, Or, SMap, mk, same, zstr

        has = z3.Function(v.fresh_name("states"), z3.StringSort(), z3.BoolSort())
        rest = lambda k: v.And(mk(has(zstr(k))), Not(same(k, a)), Not(same(k, b)))
        machine.states = SMap(rest, lambda k: others, default=lambda: None, name="states")
    else:
        machine.states.clear()
        for i in range(v.int("rest", 0, 3)):
            machine.states["rest_%d" % i] = others
    machine.states[a] = cur
    if wants == "known":
        machine.states[b] = nxt
    machine.current_state = a
    data = machine._data
    given = v.choose("new data", [None, {}, {"x": 5, "y": 6}])
    g_cur, g_nxt = (counts(cur.metrics, COUNTS), counts(nxt.metrics, COUNTS)) if env else (None, None)
    g_all = counts(machine.metrics, TOTALS) if env else None
    out = v.outcome(lambda: machine.run(given))
    want, moved, fails = ["run"], False, hooks_a.fail == "run" or wants == "unknown"
    leave_ok = True if plain else hooks_a.leave_ok
    enter_ok = True if plain or hooks_b is None else hooks_b.enter_ok
    tried_leave = tried_enter = left = entered = False
    if not fails and wants == "known":
        tried_leave = True
        if not plain:
            want.append("leave")
            fails = hooks_a.fail == "leave"
        if not fails and leave_ok:
            left = True
            tried_enter = True
            if not plain:
                want.append("enter")
                fails = hooks_b.fail == "enter"
            if not fails and enter_ok:
                moved = entered = True
    v.check("the hooks are called once each, in order", [t[0] for t in trace] == want)
    names = {"run": a, "leave": a, "enter": b}
    others_ = {"leave": b, "enter": a}
    for t in trace:
        v.check("each on its own state", v.same(t[1], names[t[0]]))
        v.check("with the machine's data", t[-1] is data)
        if t[0] != "run":
            v.check("told the other state's name", v.same(t[2], others_[t[0]]))
    v.check("the state changes exactly when permitted", v.same(machine.current_state, b if moved else a))
    v.check("new data is seen", data["x"] == (5 if given else 0))
    if v.symbolic:
        v.check("the lock is free afterwards", machine.lock.lock.depth == 0)
    if fails:
        v.check("a failing hook or an unknown state is reported", out[0] == "raise")
        if hooks_a.fail != "run" and wants == "unknown":
            v.check("an unknown state is refused", out[1] is AssertionError)
    else:
        v.check("the iteration completes", out[0] == "ok")
        v.check("the starting and ending states are returned", v.And(out[1][0] is cur, out[1][1] is (nxt if moved else cur)))
    if env is None:
        return
    ran = hooks_a.fail != "run"
    left_call = tried_leave and (plain or hooks_a.fail != "leave")
    enter_call = tried_enter and (plain or hooks_b.fail != "enter")
    for what, old, now, add in zip(COUNTS, g_cur, counts(cur.metrics, COUNTS), (0, 0, int(left_call), int(left), int(ran))):
        v.check("current state: %s" % what, now == old + add)
    for what, old, now, add in zip(COUNTS, g_nxt, counts(nxt.metrics, COUNTS), (int(enter_call), int(entered), 0, 0, 0)):
        v.check("next state: %s" % what, now == old + add)
    total = (int(tried_enter and not entered), int(tried_leave and not left), int(moved), 1) if not fails else (0, 0, 0, 0)
    for what, old, now, add in zip(TOTALS, g_all, counts(machine.metrics, TOTALS), total):
        v.check("machine: %s" % what, now == old + add)


@unit("C18/new", props="C18", funcs=FUNCS)
def u_new(v):
    """A machine starts in its initial state, which must agree."""
    from vtelem.classes.state import State
    from vtelem.classes.state_machine import StateMachine

    trace = []
    a, b = v.str("a"), v.str("b")
    ha, hb = Hooks(v, trace, a, lambda: a), Hooks(v, trace, b, lambda: b)
    v.assume(v.Not(v.same(a, b)))
    sa, sb = State(a, ha.run, ha.entering, ha.leaving), State(b, hb.run, hb.entering, hb.leaving)
    which = v.choose("initial", ["default", "first", "second", "foreign"])
    init = {"default": None, "first": sa, "second": sb, "foreign": State(v.str("c"))}[which]
    if which == "foreign":
        v.assume(v.And(v.Not(v.same(init.name, a)), v.Not(v.same(init.name, b))))
    given = {"k": 1}
    out = v.outcome(lambda: StateMachine("m", [sa, sb], init, given))
    hooks = hb if which == "second" else ha
    ok = v.And(which != "foreign", hooks.fail != "enter", hooks.enter_ok)
    v.check("the machine starts exactly when the initial state can be entered", v.Iff(out[0] == "ok", ok))
    v.check("only the initial state's entrance runs", [t[0] for t in trace] == ([] if which == "foreign" else ["enter"]))
    if out[0] == "ok":
        m = out[1]
        v.check("it is in the initial state", v.same(m.current_state, b if which == "second" else a))
        v.check("with a copy of the data", m._data is not given and m._data["k"] == 1)
        with m.data() as data:
            v.check("data is the machine's", data is m._data)
    v.check("a machine needs states", v.fails(lambda: StateMachine("m", []), AssertionError))


@unit("C18/defaults", props="C18", funcs=FUNCS)
def u_defaults(v):
    """States without hooks stay, and agree to everything."""
    from vtelem.classes.state import State

    name, other = v.str("name"), v.str("other")
    state = State(name)
    v.check("stays", v.same(state.run({}), name))
    v.check("may be entered", state.entering(other, {}) is True)
    v.check("may be left", state.leaving(other, {}) is True)


@search("C18")
def search_machines(v):
    """Random machines run for many iterations, against an interpreter."""
    from vtelem.classes.state import State
    from vtelem.classes.state_machine import StateMachine

    env = environment(v) if v.bool("metrics") else None
    n = v.int("n", 1, 5)
    names = ["s%d" % i for i in range(n)]
    table, trace, states = {}, [], []

    def hooks(nm):
        def run(data):
            trace.append(("run", nm))
            return table["want"]

        def leave(to, data):
            trace.append(("leave", nm, to))
            return table["leave"]

        def enter(came, data):
            trace.append(("enter", nm, came))
            return table["enter"]

        return run, enter, leave

    for nm in names:
        run, enter, leave = hooks(nm)
        states.append(State(nm, run, enter if v.bool("e") else None, leave if v.bool("l") else None, env))
    by = dict(zip(names, states))
    table.update(want=names[0], leave=True, enter=True)
    start = v.choose("start", names)
    m = StateMachine("m", states, by[start], env=env)
    cur, tally, per = start, dict.fromkeys(TOTALS, 0), {nm: dict.fromkeys(COUNTS, 0) for nm in names}
    per[cur]["enter_attempts"] += 1
    per[cur]["enter_successes"] += 1
    for i in range(v.int("steps", 1, 30, cmax=30)):
        table.update(want=v.choose("want", names + ["bogus"]), leave=v.rng.random() < 0.8, enter=v.rng.random() < 0.8)
        del trace[:]
        out = v.outcome(lambda: m.run({"i": i}))
        want = [("run", cur)]
        per[cur]["iterations"] += 1
        prev = cur
        if table["want"] == "bogus":
            v.check("unknown states are refused", out[0] == "raise")
        else:
            v.check("completes", out[0] == "ok")
            tally["iterations"] += 1
            to = table["want"]
            if to != cur:
                lv = table["leave"] if by[cur].leaving_fn else True
                if by[cur].leaving_fn:
                    want.append(("leave", cur, to))
                per[cur]["exit_attempts"] += 1
                per[cur]["exit_successes"] += lv
                if lv:
                    en = table["enter"] if by[to].entering_fn else True
                    if by[to].entering_fn:
                        want.append(("enter", to, cur))
                    per[to]["enter_attempts"] += 1
                    per[to]["enter_successes"] += en
                    if en:
                        cur = to
                        tally["transitions"] += 1
                    else:
                        tally["enter_fails"] += 1
                else:
                    tally["exit_fails"] += 1
            v.check("starting and ending states", out[1][0] is by[prev] and out[1][1] is by[cur])
        v.check("hooks in order", trace == want)
        v.check("current state", m.current_state == cur)
        with m.data() as data:
            v.check("data", data["i"] == i)
        if env is not None:
            v.check("machine metrics", dict(zip(TOTALS, counts(m.metrics, TOTALS))) == tally)
            for nm in names:
                v.check("state metrics", dict(zip(COUNTS, counts(by[nm].metrics, COUNTS))) == per[nm])
