"""C27: the metrics of a queue equal its true statistics."""
import queue as _q

from pyvc.api import search, unit

FUNCS = ["vtelem.classes.metered_queue:MeteredQueue.__init__", "vtelem.classes.metered_queue:MeteredQueue.put",
         "vtelem.classes.metered_queue:MeteredQueue.get", "vtelem.classes.metered_queue:create",
         "vtelem.channel.environment:ChannelEnvironment.metric_add"]
NAMES = ("elements", "total_enqueued", "total_dequeued")


def environment(v, metered=True):
    from vtelem.channel.environment import ChannelEnvironment

    return ChannelEnvironment(200, metrics_rate=1.0 if metered else None, init_time=v.real("time", 0), app_id_basis=0.5)


def metrics(env, name):
    return tuple(env.get_metric("%s_queue.%s" % (name, what)) for what in NAMES)


def make(v, capacity=None):
    """A metered queue in any reachable state: n elements, any totals."""
    from vtelem.classes.metered_queue import MeteredQueue

    env = environment(v)
    cap = v.int("capacity", -1, 65535, cmax=12) if capacity is None else capacity
    q = MeteredQueue("things", env, cap)
    got = v.int("dequeued", 0, 2 ** 31, cmax=20)
    if v.symbolic:
        items = v.seq("items", lambda i: item_at(v, i))
        n = items.length()
        v.assume(n <= 65534)
        v.assume(v.Or(cap <= 0, n <= cap))
        q.items = items
        for what, val in zip(NAMES, (n, got + n, got)):
            env.channel_registry.get_item(env.metrics["things_queue." + what]).data = val
        return env, q, lambda i: item_at(v, i)
    n = v.int("n", 0, 30 if cap <= 0 else cap, cmax=12)
    for _ in range(got):
        q.put("old")
        q.get()
    items = [("item", i) for i in range(n)]
    for it in items:
        q.put(it)
    return env, q, lambda i: items[i]


def item_at(v, i):
    import z3

    from pyvc.sym import SInt, zint

    return SInt(z3.Function("queued", z3.IntSort(), z3.IntSort())(zint(i)))


def first(q):
    return q.queue[0]


@unit("C27/put", props="C27", funcs=FUNCS)
def u_put(v):
    env, q, item_at_ = make(v)
    before = metrics(env, "things")
    n = q.qsize()
    item = v.int("item")
    how = v.choose("how", ["wait", "no wait", "timeout", "put_nowait"])
    full = v.And(q.maxsize > 0, n >= q.maxsize)
    if how == "wait":
        v.assume(v.Not(full))
    if how == "timeout" and not v.symbolic:
        v.assume(v.Not(full))
    call = {"wait": lambda: q.put(item), "no wait": lambda: q.put(item, False),
            "timeout": lambda: q.put(item, True, 0.01), "put_nowait": lambda: q.put_nowait(item)}[how]
    out = v.outcome(call)
    v.check("refused exactly when full", v.Iff(out[0] == "raise", full))
    after = metrics(env, "things")
    v.check("reported elements are the elements", after[0] == q.qsize())
    if out[0] == "raise":
        v.check("refusal is reported as Full", out[1] is _q.Full)
        v.check("nothing enqueued", q.qsize() == n)
        for what, a, b in zip(NAMES, before, after):
            v.check("refused: %s unchanged" % what, a == b)
        return
    v.check("one more element", q.qsize() == n + 1)
    v.check("one more enqueued", after[1] == before[1] + 1)
    v.check("none dequeued", after[2] == before[2])
    v.check("it is the last", v.same(q.queue[n], item))
    i = v.index("i", n + 1)
    if i < n:
        v.check("the others keep their places", v.same(q.queue[i], item_at_(i)))


@unit("C27/get", props="C27", funcs=FUNCS)
def u_get(v):
    env, q, item_at_ = make(v)
    before = metrics(env, "things")
    n = q.qsize()
    how = v.choose("how", ["wait", "no wait", "timeout", "get_nowait"])
    if how == "wait":
        v.assume(n > 0)
    call = {"wait": q.get, "no wait": lambda: q.get(False), "timeout": lambda: q.get(True, 0.01),
            "get_nowait": q.get_nowait}[how]
    out = v.outcome(call)
    v.check("refused exactly when empty", v.Iff(out[0] == "raise", n == 0))
    after = metrics(env, "things")
    v.check("reported elements are the elements", after[0] == q.qsize())
    if out[0] == "raise":
        v.check("refusal is reported as Empty", out[1] is _q.Empty)
        for what, a, b in zip(NAMES, before, after):
            v.check("refused: %s unchanged" % what, a == b)
        return
    v.check("the oldest element comes out", v.same(out[1], item_at_(0)))
    v.check("one element less", q.qsize() == n - 1)
    v.check("one more dequeued", after[2] == before[2] + 1)
    v.check("none enqueued", after[1] == before[1])
    if n > 1:
        i = v.index("i", n - 1)
        v.check("the others move up", v.same(q.queue[i], item_at_(i + 1)))


@unit("C27/new", props="C27", funcs=FUNCS)
def u_new(v):
    from vtelem.classes.metered_queue import MeteredQueue, create

    kind = v.choose("kind", ["metered", "plain", "default", "unmetered"])
    cap = v.int("capacity", 1, 10)
    if kind == "plain":
        q = create(None, None, cap)
        v.check("no metrics without an environment", not isinstance(q, MeteredQueue))
    else:
        env = environment(v, kind != "unmetered")
        if kind == "default":
            q = create("things", env)
            v.check("a bounded queue by default", v.same(q.maxsize, 256))
        else:
            q = create("things", env, cap)
        v.check("metered", isinstance(q, MeteredQueue))
        if kind != "unmetered":
            for what, val in zip(NAMES, metrics(env, "things")):
                v.check("%s starts at zero" % what, val == 0)
    if kind != "default":
        v.check("capacity as requested", q.maxsize == cap)
    v.check("a new queue is empty", q.qsize() == 0)
    a, b = v.int("a"), v.int("b")
    q.put(a)
    v.assume(cap > 1)
    q.put(b)
    v.check("first in", v.same(q.get(), a))
    v.check("first out", v.same(q.get(), b))
    v.check("empty again", v.And(q.qsize() == 0, v.fails(q.get_nowait, _q.Empty)))
    if kind in ("metered", "default"):
        v.check("totals", v.And(*[x == y for x, y in zip(metrics(env, "things"), (0, 2, 2))]))


@unit("C27/independent", props="C27", funcs=FUNCS)
def u_independent(v):
    """Queues do not disturb each other's metrics."""
    from vtelem.classes.metered_queue import create

    env, q, _ = make(v, 0)
    other = create("other", env, 5)
    mine = metrics(env, "things")
    frames = metrics(env, "frame")
    other.put(v.int("x"))
    if v.bool("take"):
        other.get()
    for a, b in zip(mine + frames, metrics(env, "things") + metrics(env, "frame")):
        v.check("metrics of other queues unchanged", a == b)
    v.check("own metrics count", metrics(env, "other")[1] == 1)


@unit("C27/names", props="C27", funcs=FUNCS, concrete=False)
def u_names(v):
    """Queues of different names have metrics of different names."""
    from vtelem.classes.metered_queue import create

    names = [v.str("name"), v.str("other name")]
    v.assume(v.Not(v.same(names[0], names[1])))
    made = []

    class Env:
        """Keeps the names of the metrics."""

        def get_time(self):
            return 0.0

        def add_metric(self, name, instance, track_change=False, initial=None):
            made[-1].append(name)

        def has_metric(self, name):
            return any(v.branch(v.same(name, x).t) for x in made[-1])

        def metric_add(self, name, data, time=None):
            v.check("only own metrics change", v.Or(*[v.same(name, x) for x in made[-1]]))

    for name in names:
        made.append([])
        q = create(name, Env())
        v.check("there is one of each", len(made[-1]) == 3)
        q.put(1)
        q.get()
    for a in made[0]:
        for b in made[1]:
            v.check("each queue has its own metrics", v.Not(v.same(a, b)))


@search("C27")
def search_history(v):
    """Histories of puts and gets, against plain lists."""
    from vtelem.classes.metered_queue import create

    env = environment(v)
    pool = ["things", "things:1", "things:2", "thing", "Things", "a.b", "a.b.c", "a", " a", "things_queue", "x" * 40, "x" * 41, "127.0.0.1:1", "127.0.0.1:2"]
    queues = []
    for name in {v.choose("name", pool): None for _ in range(v.int("queues", 1, 3))}:
        cap = v.choose("cap", [1, 2, 3, 7, 0])
        queues.append([name, cap, create(name, env, cap), [], 0, 0])
    for i in range(v.int("steps", 1, 60, cmax=60)):
        entry = queues[v.int("which", 0, len(queues) - 1)]
        name, cap, q, model, put, got = entry
        op = v.choose("op", ["put", "put", "get", "put_nowait", "get_nowait", "bad"])
        if op == "bad":
            out = v.outcome(lambda: q.get(True, -1.0) if v.bool("which") else q.put(i, True, -1.0))
            if cap == 0 and out[0] == "ok":
                if q.qsize() > len(model):
                    model.append(i)
                    put += 1
                elif q.qsize() < len(model):
                    got += 1
                    model.pop(0)
        elif op.startswith("put"):
            full = cap > 0 and len(model) >= cap
            out = v.outcome(lambda: q.put(i, False) if op == "put" else q.put_nowait(i))
            v.check("refused exactly when full", (out[0] == "raise") == full)
            if not full:
                model.append(i)
                put += 1
        else:
            out = v.outcome(lambda: q.get(False) if op == "get" else q.get_nowait())
            v.check("refused exactly when empty", (out[0] == "raise") == (not model))
            if model:
                got += 1
                v.check("in order", out[1] == model.pop(0))
        entry[4:] = [put, got]
        for name, cap, q, model, put, got in queues:
            v.check("elements", metrics(env, name)[0] == q.qsize() == len(model))
            v.check("totals", metrics(env, name)[1:] == (put, got))
