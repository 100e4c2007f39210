"""C01: a tracked value always fits its declared type.  C02: change events."""
from pyvc.api import search, unit

from ._common import (
    primitives, any_prim, any_scalar, as_num, fits, kind_of, type_primitive, value_of, wire, PYT,
)
from ._drain import Drain

FUNCS = [
    "vtelem.classes.type_primitive:TypePrimitive.set",
    "vtelem.classes.type_primitive:TypePrimitive.add",
    "vtelem.channel:Channel.command",
    "vtelem.enums.primitive:integer_can_hold",
    "vtelem.enums.primitive:float_can_hold",
]


def check_assignment(v, prim, obj, before, val, when, res):
    """The observable contract of an assignment attempt."""
    ok = fits(v, prim, val)
    v.check("accepted exactly when the value fits the type", v.Iff(res, ok))
    if res:
        v.check("stored value has the declared type", kind_of(obj.data) == wire(prim)[0])
        v.check("stored value is the assigned value", as_num(v, obj.data) == as_num(v, val))
        v.check("stored value fits", fits(v, prim, obj.data))
        v.check("assignment time recorded", obj.last_set == (0.0 if when is None else when))
    else:
        v.check("refused assignment leaves the value", v.same(obj.data, before[0]))
        v.check("refused assignment leaves the kind", kind_of(obj.data) == kind_of(before[0]))
        v.check("refused assignment leaves the time", v.same(obj.last_set, before[1]))


def maybe_time(v):
    if v.choose("with_time", [True, False]):
        return v.real("time")
    return None


@unit("C01/set", props="C01", funcs=FUNCS)
def u_set(v):
    prim = any_prim(v)
    obj = type_primitive(v, prim)
    val = any_scalar(v)
    when = maybe_time(v)
    before = (obj.data, obj.last_set)
    res = obj.set(val, when)
    check_assignment(v, prim, obj, before, val, when, res)


@unit("C01/add", props="C01", funcs=FUNCS)
def u_add(v):
    prim = any_prim(v)
    obj = type_primitive(v, prim)
    val = any_scalar(v)
    if kind_of(val) == "other":
        return
    when = maybe_time(v)
    before = (obj.data, obj.last_set)
    new = as_num(v, before[0]) + as_num(v, val)
    res = obj.add(val, when)
    check_assignment(v, prim, obj, before, new, when, res)


@unit("C01/default", props="C01", funcs=["vtelem.enums.primitive:default_val"])
def u_default(v):
    from vtelem.classes.type_primitive import TypePrimitive

    prim = any_prim(v)
    obj = TypePrimitive(prim)
    v.check("initial value fits its type", fits(v, prim, obj.get()))
    v.check("initial value has the declared type", kind_of(obj.get()) == wire(prim)[0])


def channel(v, prim, name="chan", commandable=None, queue=None):
    from vtelem.channel import Channel

    res = Channel(v.str(name), prim, v.real(name + ".rate", 0), queue,
                  v.bool(name + ".commandable") if commandable is None else commandable)
    res.data = value_of(v, prim, name + ".data")
    res.last_set = v.real(name + ".last_set")
    return res


@unit("C01/command", props="C01", funcs=FUNCS)
def u_command(v):
    prim = any_prim(v)
    chan = channel(v, prim)
    val = any_scalar(v)
    when = maybe_time(v)
    add = v.choose("add", [False, True])
    if add and kind_of(val) == "other":
        return
    before = (chan.data, chan.last_set)
    commandable = chan.commandable
    res = chan.command(val, when, add)
    if not commandable:
        v.check("non-commandable channel refuses", v.Not(res))
        v.check("non-commandable channel keeps its value", v.same(chan.data, before[0]))
        v.check("non-commandable channel keeps its time", v.same(chan.last_set, before[1]))
    else:
        new = as_num(v, before[0]) + as_num(v, val) if add else val
        check_assignment(v, prim, chan, before, new, when, res)


# ---------------------------------------------------------------- C02 -------
class Tap:
    """Stand-in for the listener: records what it is told."""

    def __init__(self):
        self.calls = []

    def __call__(self, prev, curr):
        self.calls.append((prev, curr))


@unit("C02/callback", props="C02", funcs=FUNCS)
def u_callback(v):
    prim = any_prim(v)
    tap = Tap()
    obj = type_primitive(v, prim, cb=tap)
    val = any_scalar(v)
    when = maybe_time(v)
    before = (obj.data, obj.last_set)
    res = obj.set(val, when)
    changed = v.And(res, fits(v, prim, val), as_num(v, before[0]) != as_num(v, val)) \
        if kind_of(val) != "other" else False
    if changed:
        v.check("a change is reported exactly once", len(tap.calls) == 1)
        if tap.calls:
            prev, curr = tap.calls[0]
            v.check("report carries the previous value", v.same(prev[0], before[0]))
            v.check("report carries the previous time", v.same(prev[1], before[1]))
            v.check("report carries the new value", as_num(v, curr[0]) == as_num(v, obj.data))
            v.check("report carries the new time", v.same(curr[1], obj.last_set))
    else:
        v.check("no change, no report", len(tap.calls) == 0)


@unit("C02/enqueue", props="C02", funcs=[
    "vtelem.channel:Channel.__init__", "vtelem.classes.event_queue:EventQueue.enqueue"])
def u_enqueue(v):
    """A change of a tracked channel appends exactly one event, last."""
    from vtelem.classes.event_queue import EventQueue

    prim = any_prim(v)
    queue = EventQueue()
    other = ("other", (0, 0.0), (1, 1.0))
    if v.choose("preloaded", [True, False]):
        queue.queue.put(other)
    start = queue.queue.qsize()
    chan = channel(v, prim, queue=queue)
    val = any_scalar(v)
    when = v.real("time")
    before = (chan.data, chan.last_set)
    res = chan.set(val, when)
    changed = v.And(res, fits(v, prim, val), as_num(v, before[0]) != as_num(v, val)) \
        if kind_of(val) != "other" else False
    if changed:
        v.check("one more event is pending", queue.queue.qsize() == start + 1)
        got = queue.consume()
        v.check("consume returns all pending events", len(got) == start + 1)
        name, prev, curr = got[-1]
        v.check("event names its channel", v.same(name, chan.name))
        v.check("event carries the previous value", v.And(v.same(prev[0], before[0]), v.same(prev[1], before[1])))
        v.check("event carries the new value", v.And(as_num(v, curr[0]) == as_num(v, val), curr[1] == when))
        v.check("nothing pending after consume", queue.queue.qsize() == 0)
    else:
        v.check("no event without a change", queue.queue.qsize() == start)


@unit("C02/consume", props=["C02", "C10"], funcs=["vtelem.classes.event_queue:EventQueue.consume"], loops=[Drain],
      concrete=False)
def u_consume(v):
    """Draining returns everything pending, in order, and leaves nothing."""
    import z3

    from pyvc.sym import SInt, SSeq, zint

    from vtelem.classes.event_queue import EventQueue

    g = v.g
    queue = EventQueue()
    n = v.int("pending", 0, 256)
    item = z3.Function("pending_item", z3.IntSort(), z3.IntSort())
    g.base = SSeq(zint(n), lambda i: (SInt(item(zint(i))), ))
    queue.queue.items = SSeq(zint(n), g.base.elem)
    g.drain = queue.queue
    got = v.call(queue.consume)
    v.check("every pending event is returned", v.call(len, got) == n)
    v.check("nothing is left", queue.queue.qsize() == 0)
    i = v.index("i", n)
    v.check("events are returned in order", v.same(got[i], g.base.base_at(zint(i))))
    v.check("the lock is released", queue.lock.acquire(False))


@unit("C02/full", props="C02", funcs=["vtelem.classes.event_queue:EventQueue.enqueue"], concrete=False)
def u_full(v):
    """An event is appended last while there is room, and refused otherwise."""
    import z3

    from pyvc.sym import SInt, SSeq, zint

    from vtelem.classes.event_queue import EventQueue

    queue = EventQueue()
    n = v.int("pending", 0, 256)
    item = z3.Function("pending_item", z3.IntSort(), z3.IntSort())
    base = SSeq(zint(n), lambda i: (SInt(item(zint(i))), ))
    queue.queue.items = SSeq(zint(n), base.elem)
    prev, curr = (v.int("a"), v.real("t0")), (v.int("b"), v.real("t1"))
    name = v.str("name")
    ok = v.call(queue.enqueue, name, prev, curr)
    v.check("accepted while there is room", v.Iff(ok, n < 256))
    v.check("one more is pending", queue.queue.qsize() == v.Ite(ok, n + 1, n))
    i = v.index("i", n)
    v.check("pending events are untouched", v.same(queue.queue.items[i], base.base_at(zint(i))))
    if ok:
        last = queue.queue.items[n]
        v.check("appended last", v.And(v.same(last[0], name), v.same(last[1], prev), v.same(last[2], curr)))


@search("C02")
def changes(v):
    """Histories of assignments to several channels against a plain model."""
    from vtelem.channel import Channel
    from vtelem.classes.event_queue import EventQueue

    from ._wire import draw_value

    queue = EventQueue()
    chans = []
    for j in range(v.choose("channels", [1, 2, 3])):
        prim = v.choose("type", primitives())
        tracked = v.choose("tracked", [True, True, False])
        chans.append([Channel("c%d" % j, prim, 1.0, queue if tracked else None), tracked, 0, 0.0])
        chans[-1][2] = chans[-1][0].get()
    now, want = 0.0, []
    small = v.choose("few values", [True, False])
    for _ in range(v.choose("steps", [1, 3, 10, 40])):
        now += v.choose("step", [0.0, 0.0, 0.5, 1.0])
        rec = chans[v.index("which", len(chans))]
        chan, tracked, value, when = rec
        kind = wire(chan.type)[0]
        if small:
            new = PYT[kind](v.choose("small", [0, 1, 2]))
        else:
            new = draw_value(v, chan.type)
        how = v.choose("how", ["set", "command", "add", "bad"])
        if how == "bad":
            v.check("a value of the wrong kind is refused", not chan.set("x", now))
        else:
            if how == "add" and kind != "bool":
                new = value + new
                ok = chan.add(new - value, now) if kind == "int" else chan.set(new, now)
            else:
                ok = chan.command(new, now) if how == "command" else chan.set(new, now)
            v.check("accepted when it fits", v.Iff(ok, fits(v, chan.type, new)))
            if ok:
                if tracked and new != value:
                    want.append((chan.name, (value, when), (new, now)))
                rec[2], rec[3] = new, now
        if v.choose("drain", [False, False, True]):
            v.check("exactly one event for each change, in order", queue.consume() == want)
            v.check("nothing is left", queue.queue.qsize() == 0)
            want = []
    v.check("exactly one event for each change, in order", queue.consume() == want)
    v.check("nothing is left", queue.consume() == [])
