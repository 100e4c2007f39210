"""C16: daemon life-cycle operations follow the state machine."""
from pyvc.api import search, unit
from pyvc.loops import LoopSpec

from .c18_machines import environment

D = "vtelem.daemon:DaemonBase."
S = "vtelem.daemon.synchronous:Daemon."
OPS = [D + n for n in ("start", "stop", "begin_stop", "pause", "unpause", "restart", "set_state", "get_state", "get_state_str",
                       "reset_metric", "increment_metric", "set_env_metric")]
METRICS = ("starts", "stops", "pauses", "unpauses", "count", "errors")


class Broken(Exception):
    """Raised by a task."""


class HookLock:
    """A re-entrant lock; another thread may act before it is first taken."""

    def __init__(self, before=None):
        self.depth, self.before = 0, before

    def acquire(self, *_, **__):
        if self.depth == 0 and self.before is not None:
            before, self.before = self.before, None
            before()
        self.depth += 1
        return True

    def release(self):
        if self.depth <= 0:
            raise RuntimeError("cannot release un-acquired lock")
        self.depth -= 1

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *_):
        self.release()


class Threads:
    """Stand-in for 'threading': threads are recorded, not run."""

    def __init__(self, bench):
        self.bench, self.made = bench, []

    def Thread(self, target=None, args=(), kwargs=None, name=None, **_):  # pylint: disable=invalid-name
        thread = FakeThread(self.bench, target, args, kwargs or {}, name)
        self.made.append(thread)
        return thread


class FakeThread:
    def __init__(self, bench, target, args, kwargs, name):
        self.bench, self.target, self.args, self.kwargs, self.name = bench, target, args, kwargs, name
        self.started, self.joins = 0, []

    def start(self):
        self.started += 1

    def join(self, timeout=None):
        self.joins.append(timeout)
        if self.bench.finishes:
            self.bench.daemon.set_state(self.bench.idle)

    def is_alive(self):
        return bool(self.started) and self.bench.daemon.state != self.bench.idle


class Bench:
    """A daemon in an arbitrary state, with everything it does recorded."""

    def __init__(self, v, state=None, cls=None, metered=True, interfere=False, **kwargs):
        import vtelem.daemon as mod
        from vtelem.daemon import DaemonBase
        from vtelem.enums.daemon import DaemonState

        self.v, self.mod = v, mod
        self.states = list(DaemonState)
        self.idle = DaemonState.IDLE
        self.env = environment(v) if metered else None
        self.daemon = d = (cls or DaemonBase)("worker", env=self.env, **kwargs)
        self.changes, self.injected = [], []
        self.finishes = True
        self.counts = {}
        for name in METRICS:
            self.counts[name] = v.int(name, 0, 2 ** 31, cmax=10)
            d.reset_metric(name, self.counts[name])
        d.function["state_change"] = lambda a, b, t: self.changes.append((a, b, t))
        state = v.choose("state", self.states) if state is None else state
        if metered:
            d.set_state(self.states[0] if state is not self.states[0] else self.states[1])
        d.set_state(state)
        del self.changes[:]
        d.time = v.real("time", 0)
        self.first = self.state = state
        self.threads = Threads(self)
        if state not in (DaemonState.IDLE, DaemonState.ERROR):
            d.thread = self.threads.Thread()
        if v.bool("injects"):
            d.function["inject_stop"] = lambda: self.injected.append(d.state)
        d.lock.lock = HookLock(self.interfered if interfere else None)

    def interfered(self):
        """Another thread moved the daemon before we could take the lock."""
        self.state = self.v.choose("state when locked", self.states)
        if self.state is not self.first:
            self.daemon.state = self.state
            if self.env is not None:
                self.env.set_enum_metric("worker.state", self.state.name.lower(), 0.0)

    def run(self, fn):
        old, self.mod.threading = self.mod.threading, self.threads
        try:
            return self.v.outcome(fn)
        finally:
            self.mod.threading = old

    def after(self, state, changes, counts, label=""):
        """What the daemon looks like now."""
        v, d = self.v, self.daemon
        v.check(label + "the state is as documented", d.state is state and d.get_state() is state)
        v.check(label + "its text too", d.get_state_str() == state.name.lower())
        v.check(label + "each change is reported once", [c[:2] for c in self.changes] == changes)
        for change in self.changes:
            v.check(label + "at the daemon's time", v.same(change[2], d.time))
        for name in METRICS:
            want = counts.get(name, self.counts[name])
            v.check(label + "count of " + name, v.same(d.function["metrics_data"][name], want))
            if self.env is not None:
                v.check(label + "metric " + name, v.same(self.env.get_metric("worker." + name), want))
        if self.env is not None:
            v.check(label + "metric of the state", self.env.get_enum_metric("worker.state") == state.name.lower())
        v.check(label + "the lock is free", d.lock.lock.depth == 0)

    def untouched(self, label=""):
        self.after(self.state, [], {}, label)
        self.v.check(label + "no thread is made, started or joined", all(not t.started and not t.joins for t in self.threads.made)
                     and len(self.threads.made) <= 1)
        self.v.check(label + "no stop is requested", not self.injected)


def states():
    from vtelem.enums.daemon import DaemonState

    return DaemonState


def started(v, b, label=""):
    """The effects of a successful start."""
    d, made = b.daemon, b.threads.made
    v.check(label + "one thread is started", [t.started for t in made if t.target is not None] == [1])
    t = made[-1]
    v.check(label + "it is the daemon's", d.thread is t)
    v.check(label + "running the task with its arguments", t.target == d.run_harness and t.args == (1,) and t.kwargs == {"k": 2})


@unit("C16/start", props="C16", funcs=OPS)
def u_start(v):
    st = states()
    b = Bench(v, interfere=True)
    out = b.run(lambda: b.daemon.start(1, k=2))
    v.check("completes", out[0] == "ok")
    v.check("starts exactly when idle", out[1] is (b.state is st.IDLE))
    if b.state is not st.IDLE:
        b.untouched()
        return
    b.after(st.STARTING, [(st.IDLE, st.STARTING)], {"starts": b.counts["starts"] + 1, "count": 0})
    started(v, b)


@unit("C16/pause", props="C16", funcs=OPS)
def u_pause(v):
    st = states()
    b = Bench(v, interfere=True)
    what = v.choose("what", ["pause", "unpause"])
    src, dst = (st.RUNNING, st.PAUSED) if what == "pause" else (st.PAUSED, st.RUNNING)
    out = b.run(getattr(b.daemon, what))
    v.check("completes", out[0] == "ok")
    v.check("succeeds exactly in the state that allows it", out[1] is (b.state is src))
    if b.state is not src:
        b.untouched()
        return
    b.after(dst, [(src, dst)], {what + "s": b.counts[what + "s"] + 1})
    v.check("the thread goes on", all(not t.started and not t.joins for t in b.threads.made) and not b.injected)


@unit("C16/stop", props="C16", funcs=OPS)
def u_stop(v):
    st = states()
    b = Bench(v, interfere=True)
    b.finishes = v.bool("the task ends in time")
    restart = v.choose("then", ["stop", "restart"])
    timeout = v.choose("timeout", [None, 3]) if restart == "stop" else None
    if b.state is not st.IDLE and b.daemon.thread is None:
        b.daemon.thread = b.threads.Thread()
    if b.daemon.thread is None:
        b.daemon.thread = b.threads.Thread()
    thread = b.daemon.thread
    if restart == "restart":
        out = b.run(lambda: b.daemon.restart(1, k=2))
    else:
        out = b.run(lambda: b.daemon.stop() if timeout is None else b.daemon.stop(timeout))
    v.check("completes", out[0] == "ok")
    if b.state is not st.RUNNING:
        v.check("refused unless running", out[1] is False)
        b.untouched()
        return
    done = bool(b.finishes)
    changes = [(st.RUNNING, st.STOPPING)] + ([(st.STOPPING, st.IDLE)] if done else [])
    counts = {"stops" if done else "errors": b.counts["stops" if done else "errors"] + 1}
    state = st.IDLE if done else st.STOPPING
    v.check("the thread is waited for once, with a bound", len(thread.joins) == 1 and thread.joins[0] is not None and (
        timeout is None or thread.joins[0] == timeout))
    v.check("the task is asked once, when it must stop",
            b.injected == ([st.STOPPING] if "inject_stop" in b.daemon.function else []))
    if restart == "restart":
        v.check("restarts exactly when the task ended", out[1] is done)
        if done:
            changes.append((st.IDLE, st.STARTING))
            counts.update(starts=b.counts["starts"] + 1, count=0)
            state = st.STARTING
            started(v, b)
    else:
        v.check("stopping succeeds", out[1] is True)
    if not (restart == "restart" and done):
        v.check("no thread is left", b.daemon.thread is None and len([t for t in b.threads.made if t.started]) == 0)
    b.after(state, changes, counts)


@unit("C16/perform", props="C16", funcs=OPS + [D + "perform", D + "perform_str"])
def u_perform(v):
    """Operations by name: those with nothing to do succeed and do nothing."""
    from vtelem.enums.daemon import DaemonOperation as Op

    st = states()
    b = Bench(v)
    op = v.choose("operation", list(Op))
    word = v.choose("by", ["enum", "lower", "upper"])
    skip = {Op.START: (st.STARTING, st.RUNNING), Op.STOP: (st.STOPPING, st.IDLE), Op.PAUSE: (st.PAUSED,),
            Op.UNPAUSE: (st.IDLE, st.RUNNING)}.get(op, ())
    src = {Op.START: st.IDLE, Op.STOP: st.RUNNING, Op.PAUSE: st.RUNNING, Op.UNPAUSE: st.PAUSED, Op.RESTART: st.RUNNING}.get(op)
    text = op.name.lower() if word == "lower" else op.name
    out = b.run(lambda: b.daemon.perform(op, 1, k=2) if word == "enum" else b.daemon.perform_str(text, 1, k=2))
    v.check("completes", out[0] == "ok")
    v.check("succeeds exactly when allowed, or nothing is to be done", out[1] is (b.state is src or b.state in skip))
    if b.state is not src:
        b.untouched()
        return
    steps = {Op.START: [st.STARTING], Op.STOP: [st.STOPPING, st.IDLE], Op.PAUSE: [st.PAUSED], Op.UNPAUSE: [st.RUNNING],
             Op.RESTART: [st.STOPPING, st.IDLE, st.STARTING]}[op]
    counted = {Op.START: ["starts"], Op.STOP: ["stops"], Op.PAUSE: ["pauses"], Op.UNPAUSE: ["unpauses"],
               Op.RESTART: ["stops", "starts"]}[op]
    counts = {c: b.counts[c] + 1 for c in counted}
    if "starts" in counts:
        counts["count"] = 0
        started(v, b)
    b.after(steps[-1], list(zip([src] + steps, steps)), counts)


@unit("C16/unknown", props="C16", funcs=[D + "perform_str"])
def u_unknown(v):
    from vtelem.enums.daemon import DaemonOperation as Op

    b = Bench(v)
    word = v.str("word")
    low = word.lower()
    for op in Op:
        v.assume(v.Not(v.same(low, op.name.lower())))
    out = b.run(lambda: b.daemon.perform_str(word))
    v.check("an unknown operation is refused", out[0] == "ok" and out[1] is False)
    b.untouched()


@unit("C16/set", props="C16", funcs=[D + "set_state"])
def u_set(v):
    """A change is reported once; no change is not reported."""
    metered = v.bool("metered")
    b = Bench(v, metered=metered, interfere=not metered)
    new = v.choose("new", b.states)
    out = b.run(lambda: b.daemon.set_state(new))
    v.check("completes", out[0] == "ok")
    v.check("tells whether it changed", out[1] is (new is not b.state))
    b.after(new, [(b.state, new)] if new is not b.state else [], {})


@unit("C16/harness", props="C16", funcs=[D + "run_harness"])
def u_harness(v):
    """The task ends in the idle state however it ends."""
    st = states()
    b = Bench(v, st.STARTING)
    d, calls = b.daemon, []
    ends = v.choose("ends", ["returns", "interrupted", "fails"])
    last = v.choose("last state", [st.RUNNING, st.PAUSED, st.STOPPING])

    def run(*args, **kwargs):
        calls.append((d.state, args, kwargs))
        d.set_state(last)
        if ends == "interrupted":
            raise KeyboardInterrupt
        if ends == "fails":
            raise Broken

    d.run = run
    try:
        out = b.run(lambda: d.run_harness(1, k=2))
    except KeyboardInterrupt:
        out = ("raise", KeyboardInterrupt)
    v.check("only a failure of the task is passed on", (out[0] == "raise") == (ends == "fails") and (
        out[0] == "ok" or out[1] is Broken))
    v.check("the task runs once, in the running state, with its arguments", calls == [(st.RUNNING, (1,), {"k": 2})])
    mid = [] if last is st.RUNNING else [(st.RUNNING, last)]
    b.after(st.IDLE, [(st.STARTING, st.RUNNING)] + mid + [(last, st.IDLE)], {"count": b.counts["count"] + 1})


@unit("C16/contexts", props="C16", funcs=[D + "booted", D + "paused", D + "serve"])
def u_contexts(v):
    """Guarded use: undone afterwards, and left alone when it could not begin."""
    st = states()
    b = Bench(v)
    d, seen = b.daemon, []
    what = v.choose("what", ["booted", "paused", "serve"])
    fails = v.bool("body fails")
    src = st.RUNNING if what == "paused" else st.IDLE

    def body(*args, **kwargs):
        seen.append((d.state, args, kwargs))
        if what != "paused":
            d.set_state(st.RUNNING)
        if fails:
            raise Broken
        return 5

    def use():
        if what == "serve":
            return d.serve(1, main_thread=body, k=2)
        with (d.booted(1, k=2) if what == "booted" else d.paused()):
            return body()

    out = b.run(use)
    if b.state is not src:
        v.check("refused unless allowed", out[0] == "raise" and out[1] is AssertionError and not seen)
        b.untouched()
        return
    v.check("the outcome of the body is the outcome", out[0] == "raise" and out[1] is Broken if fails else out[0] == "ok" and out[1] == 5)
    v.check("the body runs once", len(seen) == 1 and seen[0][0] is (st.PAUSED if what == "paused" else st.STARTING))
    if what == "paused":
        b.after(st.RUNNING, [(st.RUNNING, st.PAUSED), (st.PAUSED, st.RUNNING)],
                {"pauses": b.counts["pauses"] + 1, "unpauses": b.counts["unpauses"] + 1})
        return
    if what == "serve":
        v.check("with its arguments", seen[0][1] == (d, 1) and seen[0][2] == {"k": 2})
    started(v, b) if not b.daemon.thread is None else None  # pylint: disable=expression-not-assigned
    v.check("one thread ran and was waited for", [(t.started, len(t.joins)) for t in b.threads.made] == [(1, 1)])
    b.after(st.IDLE, [(st.IDLE, st.STARTING), (st.STARTING, st.RUNNING), (st.RUNNING, st.STOPPING), (st.STOPPING, st.IDLE)],
            {"starts": b.counts["starts"] + 1, "count": 0, "stops": b.counts["stops"] + 1})


# -- the periodic task -------------------------------------------------------------
class Periodic(LoopSpec):
    """Any state may be seen by each look at the state."""

    name = "periodic"

    def match_while(self, key, n, locs):
        return key == S + "run" or key.endswith("Daemon.run")

    def havoc(self, S, k):
        S.g.trace.begin()
        data = S.g.daemon.function["metrics_data"]
        for name in ("overruns", "uptime"):
            data[name] = S.ctx.int(name) if name == "overruns" else S.ctx.real(name)
        return {}

    def step_end(self, S, k):
        S.g.trace.end()

    def modifies(self, S):
        f = S.g.daemon.function
        return [S.g.trace, S.g.trace.log, f["metrics_data"], S.g.clock, S.g.daemon.lock.lock]


class Trace:
    """What one iteration of the loop does."""

    def __init__(self, v):
        self.v, self.log = v, []

    def begin(self):
        del self.log[:]

    def end(self):
        v, st = self.v, states()
        looks = [x[1] for x in self.log if x[0] == "look"]
        acts = [x for x in self.log if x[0] != "look"]
        v.check("the state is looked at before anything is done", len(looks) >= 1 and self.log[0][0] == "look")
        v.check("an iteration does not begin while stopping", looks[0] is not st.STOPPING)
        tasks = [x for x in acts if x[0] == "task"]
        paused = st.PAUSED in looks
        v.check("a paused task only waits", [x[0] for x in acts] == ["sleep"] if paused and not tasks else True)
        v.check("the task runs once unless paused", len(tasks) == (0 if looks[-1] is st.PAUSED else 1))
        for t in tasks:
            v.check("with its arguments", t[1:] == ((1,), {"k": 2}))
        sleeps = [x[1] for x in acts if x[0] == "sleep"]
        over = [x for x in acts if x[0] == "overrun"]
        v.check("it waits, or the overrun is reported, once", len(sleeps) + len(over) == 1)
        for s in sleeps:
            v.check("for a time", s > 0)
            v.check("not longer than the period", s <= v.g.rate)
        if paused and not tasks:
            v.check("a whole period", v.same(sleeps[0], v.g.rate))


class Clock:
    """A clock that never goes back."""

    def __init__(self, v):
        self.v, self.now = v, v.real("start", 0)

    def __call__(self):
        step = self.v.real("elapsed", 0)
        self.now = self.now + step
        return self.now


@unit("C16/task", props="C16", funcs=[S + "run"], loops=[Periodic], concrete=False)
def u_task(v):
    """The periodic task: any length, any moment of pausing and stopping."""
    from vtelem.daemon.synchronous import Daemon

    st = states()
    trace = v.g.trace = Trace(v)
    log = trace.log
    clock = v.g.clock = Clock(v)
    init = v.choose("init", [None, lambda *a, **k: log.append(("init", a, k))])
    rate = v.g.rate = v.real("rate")
    v.assume(rate > 0)

    class Watched(Daemon):
        """Each look at the state may see another one."""

        @property
        def state(self):
            seen = v.choose("seen", [st.RUNNING, st.PAUSED, st.STOPPING])
            log.append(("look", seen))
            return seen

        @state.setter
        def state(self, _):
            pass

        def get_time(self):
            return clock()

    d = v.g.daemon = Watched.__new__(Watched)
    from collections import defaultdict

    from vtelem.classes.time_entity import OptionalRLock

    d.lock = OptionalRLock(True)
    d.name, d.env, d.time = "worker", None, 0.0
    d.function = {"metrics_data": defaultdict(lambda: 0), "init": init, "rate": rate,
                  "task": lambda *a, **k: log.append(("task", a, k)), "sleep": lambda x: log.append(("sleep", x)),
                  "overrun": v.choose("overrun", [lambda *a: log.append(("overrun",))])}
    d.function["metrics_data"]["overruns"] = 0
    d.function["metrics_data"]["uptime"] = 0.0
    out = v.outcome(lambda: d.run(1, k=2))
    v.check("completes", out[0] == "ok")
    v.check("only when asked to stop, at once", len(log) >= 1 and log[-1] == ("look", st.STOPPING))


@unit("C16/init", props="C16", funcs=[S + "run"])
def u_init(v):
    """The task is initialised once, before its first iteration."""
    from vtelem.daemon.synchronous import Daemon

    st = states()
    log = []
    n = v.int("iterations", 0, 3)
    fails = v.bool("init fails")

    def init(*args, **kwargs):
        log.append(("init", args, kwargs))
        if fails:
            raise Broken

    def task(*args, **kwargs):
        log.append(("task", args, kwargs))
        if len(log) > n:
            d.set_state(st.STOPPING)

    d = Daemon("worker", task, 1.0, init=init)
    d.function["sleep"] = lambda x: None
    d.function["state_change"] = lambda *a: None
    d.set_state(st.STARTING)
    out = v.outcome(lambda: d.run_harness(1, k=2))
    v.check("a failing initialisation ends the task", (out[0] == "raise") == bool(fails))
    v.check("initialised first and once", [x[0] for x in log][:1] == ["init"] and len([x for x in log if x[0] == "init"]) == 1)
    v.check("no task without it", (len(log) == 1) == bool(fails))
    v.check("with the arguments", all(x[1:] == ((1,), {"k": 2}) for x in log))
    v.check("idle in the end", d.state is st.IDLE)


@search("C16")
def search_life(v):
    """Histories of operations on a daemon with a simulated thread."""
    from vtelem.enums.daemon import DaemonOperation as Op

    st, r = states(), v.rng
    b = Bench(v, st.IDLE)
    d = b.daemon
    want = dict(b.counts)
    for name in METRICS:
        want[name] = d.function["metrics_data"][name]
    cur, log = st.IDLE, []
    for i in range(r.randint(1, 40)):
        del b.changes[:]
        op = r.choice(["start", "stop", "pause", "unpause", "restart", "run", "end", "booted", "paused"] + list(Op))
        b.finishes = r.random() < 0.8
        steps, ok = [], False
        name = op if isinstance(op, str) else op.name.lower()
        skip = not isinstance(op, str) and cur in {"start": (st.STARTING, st.RUNNING), "stop": (st.STOPPING, st.IDLE),
                                                   "pause": (st.PAUSED,), "unpause": (st.IDLE, st.RUNNING)}.get(name, ())

        def stop(steps):
            steps.append(st.STOPPING)
            if b.finishes:
                steps.append(st.IDLE)
            want["stops" if b.finishes else "errors"] += 1

        if skip:
            ok = True
        elif name == "start" and cur is st.IDLE:
            steps, ok = [st.STARTING], True
            want.update(starts=want["starts"] + 1, count=0)
        elif name == "stop" and cur is st.RUNNING:
            stop(steps)
            ok = True
        elif name == "pause" and cur is st.RUNNING:
            steps, ok = [st.PAUSED], True
            want["pauses"] += 1
        elif name == "unpause" and cur is st.PAUSED:
            steps, ok = [st.RUNNING], True
            want["unpauses"] += 1
        elif name == "restart" and cur is st.RUNNING:
            stop(steps)
            if b.finishes:
                steps.append(st.STARTING)
                want.update(starts=want["starts"] + 1, count=0)
                ok = True
        elif name == "paused" and cur is st.RUNNING:
            steps, ok = [st.PAUSED, st.RUNNING], True
            want.update(pauses=want["pauses"] + 1, unpauses=want["unpauses"] + 1)
        elif name == "booted" and cur is st.IDLE:
            steps, ok = [st.STARTING], False
            want.update(starts=want["starts"] + 1, count=0)
        if name == "run":
            if cur is not st.STARTING:
                continue
            d.set_state(st.RUNNING)
            steps = [st.RUNNING]
            ok = None
            got = None
        elif name == "end":
            if cur not in (st.STOPPING, st.RUNNING, st.PAUSED):
                continue
            d.set_state(st.IDLE)
            steps = [st.IDLE]
            ok = got = None
        elif name in ("booted", "paused"):
            def use():
                with (d.booted() if name == "booted" else d.paused()):
                    pass
                return True
            out = b.run(use)
            got = out[0] == "ok"
        elif isinstance(op, str):
            out = b.run(getattr(d, name))
            v.check("completes", out[0] == "ok")
            got = out[1]
        else:
            out = b.run(lambda: d.perform(op) if r.random() < 0.5 else d.perform_str(r.choice([name, name.upper()])))
            v.check("completes", out[0] == "ok")
            got = out[1]
        v.check("succeeds exactly when allowed", got == ok)
        v.check("each change is reported once", [c[:2] for c in b.changes] == list(zip([cur] + steps, steps)))
        cur = steps[-1] if steps else cur
        b.changes[:] = []
        b.after(cur, [], want)


@search("C16")
def search_threads(v):
    """A real thread: its last state is idle, whatever the task does."""
    from vtelem.daemon.synchronous import Daemon

    st, r = states(), v.rng
    seen, ran = [], []
    how = r.choice(["stop", "fail", "pause and stop", "restart"])

    def task(*args, **kwargs):
        ran.append((args, kwargs))
        if how == "fail" and len(ran) > 2:
            raise SystemExit

    d = Daemon("worker", task, 0.001, state_change_cb=lambda a, b, t: seen.append((a, b)))
    v.check("starts", d.start(1, k=2))
    thread = d.thread
    deadline = 40000
    import time

    def wait(cond):
        n = 0
        while not cond():
            time.sleep(0.0005)
            n += 1
            if n > deadline:
                return False
        return True

    v.check("runs", wait(lambda: len(ran) > 2))
    if how == "fail":
        thread.join(5)
        v.check("idle after a failure", d.state is st.IDLE)
        want = [st.STARTING, st.RUNNING, st.IDLE]
    else:
        want = [st.STARTING, st.RUNNING]
        if how == "pause and stop":
            v.check("pauses", d.pause())
            n = len(ran)
            time.sleep(0.01)
            v.check("a paused task does not run", len(ran) <= n + 1)
            v.check("goes on", d.unpause() and wait(lambda: len(ran) > n + 1))
            want += [st.PAUSED, st.RUNNING]
        if how == "restart":
            v.check("restarts", d.restart(1, k=2))
            v.check("runs again", wait(lambda: d.state is st.RUNNING))
            want += [st.STOPPING, st.IDLE, st.STARTING, st.RUNNING]
        v.check("stops", d.stop(30))
        want += [st.STOPPING, st.IDLE]
        v.check("idle in the end", d.state is st.IDLE and d.thread is None)
    v.check("every change is reported once", seen == list(zip([st.IDLE] + want, want)))
    v.check("with its arguments", all(x == ((1,), {"k": 2}) for x in ran))
    data = d.function["metrics_data"]
    v.check("counts", (data["starts"], data["stops"], data["count"]) == {
        "fail": (1, 0, 1), "restart": (2, 2, 1)}.get(how, (1, 1, 1)))
