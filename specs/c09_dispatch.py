"""C09, C10: a dispatch emits every due channel / pending event exactly once.

The frames are seen through the contracts of ChannelFrame.add/add_event and
Frame.finalize (established on the bytes by the C05 units): a frame holds an
interval of the sequence of elements to send. The outgoing queue accepts only
finalized frames that continue where the previous one ended.
"""
from pyvc.api import contract, search, unit
from pyvc.loops import LoopSpec

from ._common import primitives, wire
from .c03_codec import enc
from .c05_frames import CRC, HDR
from .c13_registry import fill

ADD, ADD_EVENT, FIN = ("vtelem.frame.channel:ChannelFrame.add", "vtelem.frame.channel:ChannelFrame.add_event",
                       "vtelem.frame:Frame.finalize")
BIG = 2 + 2 * 8 + 16 + HDR + CRC


def ghost_add(v, frame, size, item):
    """The shared part of both contracts: all or nothing."""
    if v.Or(frame.finalized, frame.used + size > frame.mtu):
        return False
    g = v.g
    v.require(v.And(item[0] >= 0, item[0] <= 65535))
    g.expect(item, g.added)
    lo, hi = span(g, frame)
    v.check("elements of a frame are consecutive", hi == g.added)
    frame.lo, frame.hi = lo, hi + 1
    g.added = g.added + 1
    frame.used = frame.used + size
    frame.count["value"] = frame.count["value"] + 1
    return True


def span(g, frame):
    """The interval of elements a frame holds."""
    if not hasattr(frame, "lo"):
        frame.lo = frame.hi = g.added
    return frame.lo, frame.hi


@contract(ADD, by="C05/add")
def c_add(v, self, chan_id, chan_type, chan_val):
    return ghost_add(v, self, 2 + wire(chan_type)[1], (chan_id, chan_type, chan_val))


@contract(ADD_EVENT, by="C05/add_event")
def c_add_event(v, self, chan_id, chan_type, prev, curr):
    return ghost_add(v, self, 2 + 2 * wire(chan_type)[1] + 16, (chan_id, chan_type, prev, curr))


@contract(FIN, by="C05/finalize")
def c_finalize(v, self, write_crc=True):
    if not self.finalized:
        self.finalized = True
        self.sealed = write_crc
    return self.used


class Sink:
    """The outgoing queue."""

    def __init__(self, v):
        self.v = v

    def put(self, frame, *_, **__):
        v, g = self.v, self.v.g
        v.check("only finalized frames are queued", frame.finalized)
        lo, hi = span(g, frame)
        v.check("no empty frame is queued", lo < hi)
        v.check("frames continue where the last one ended", v.And(lo == g.covered, hi <= g.added))
        v.check("a frame fits the MTU", frame.used <= g.mtu)
        v.check("count is the number of elements", frame.count["value"] == hi - lo)
        v.check("frames carry the dispatch's header", v.same(frame.buffer.data[0:11], g.header))
        if g.framer.use_crc:
            v.check("checksum as configured", v.And(frame.crc is not None, v.Iff(frame.sealed, g.write_crc)))
        else:
            v.check("no checksum when disabled", frame.crc is None)
        g.covered = hi
        g.frames = g.frames + 1

    def put_nowait(self, frame):
        self.put(frame)


class Dispatch(LoopSpec):
    """After k items: what is due among them is queued or in the frame."""

    name = "dispatch"
    tag = "items"

    def frame(self, S):
        from pyvc.core import Unsupported

        from vtelem.frame.channel import ChannelFrame

        names = S.role(ChannelFrame)
        objs = {id(S.locals[n]) for n in names}
        if len(objs) != 1:
            raise Unsupported("no single current frame")
        return names, S.locals[names[0]]

    def ghosts(self, S, k):
        return {"frames": S.g.frames, "added": S.g.added}

    def inv(self, S, k):
        g, c = S.g, S.ctx
        _, frame = self.frame(S)
        lo, hi = span(g, frame)
        return [
            ("everything due so far was added", g.added == g.due_before(k)),
            ("what is not queued is in the frame", c.And(lo == g.covered, hi == g.added)),
            ("a queued frame has a successor element", c.Or(g.added > g.covered, g.frames == 0)),
            ("nothing queued, nothing covered", c.Iff(g.covered == 0, g.frames == 0)),
            ("order", c.And(g.covered >= 0, g.covered <= g.added, g.frames >= 0)),
            ("the current frame is open", c.Not(frame.finalized)),
            ("it is within the MTU", c.And(frame.mtu == g.mtu, frame.used <= g.mtu)),
            ("its size is accounted", c.Implies(lo == hi, frame.used == g.over)),
            ("it counts its elements", frame.count["value"] == hi - lo),
            ("it carries the dispatch's header", c.same(frame.buffer.data[0:11], g.header)),
        ]

    def havoc(self, S, k):
        g, c = S.g, S.ctx
        names, _ = self.frame(S)
        for field in ("added", "covered", "frames"):
            setattr(g, field, c.int("g." + field))
        frame = g.fresh_frame()
        frame.lo, frame.hi = g.covered, g.added
        frame.used = c.int("used", 0)
        frame.count["value"] = c.int("count", 0)
        return {n: frame for n in names}

    def step_begin(self, S, k, item):
        S.g.define(k)
        S.g.before = S.g.memory(item)

    def step_end(self, S, k):
        S.g.after_item(S.cut.item, k)

    def modifies(self, S):
        _, frame = self.frame(S)
        return [S.g, S.cut.item, frame, frame.count]

    def frame_ok(self, S, obj, path, lab, old, new):
        # frames are looked at when they are queued, and by the invariant
        from vtelem.frame.channel import ChannelFrame

        return isinstance(obj, ChannelFrame) or path.endswith(".count")


def base(v, kind, channels):
    """Framer, registry and outgoing queue of an arbitrary dispatch."""
    from vtelem.channel.framer import ChannelFramer
    from vtelem.channel.registry import ChannelRegistry
    from vtelem.classes import DEFAULTS
    from vtelem.classes.time_entity import OptionalRLock
    from vtelem.frame import time_to_int

    from .c06_decode import lazy_channel, world

    g = v.g
    g.v = v
    g.w = world()
    g.mtu = v.int("mtu", BIG, 2 ** 16)
    g.time = v.real("time", 0, 10 ** 12)
    g.write_crc = v.bool("write_crc")
    use_crc = v.choose("use_crc", [True, False])
    reg = ChannelRegistry()
    fill(v, reg, "reg", item=lambda i: lazy_channel(g.w, i))
    g.framer = ChannelFramer(g.mtu, reg, channels, OptionalRLock(True), None, use_crc)
    app = g.framer.primitives["app_id"].get()
    g.header = enc(v, DEFAULTS["id"], app) + enc(v, DEFAULTS["enum"], {"data": 1, "event": 2}[kind]) \
        + enc(v, DEFAULTS["timestamp"], time_to_int(g.time))
    g.added = g.covered = g.frames = 0
    g.over = HDR + (CRC if use_crc else 0)
    make = g.framer.new_data_frame if kind == "data" else g.framer.new_event_frame
    g.fresh_frame = lambda: make(g.time)
    return g, reg


def kind_check(v, name, cid_term, prim):
    """prim is the type of the channel with this term."""
    from pyvc.sym import mk

    v.check(name, mk(v.g.w["type"](cid_term) == primitives().index(prim)))


def in_range(v, cid):
    from pyvc.sym import zint

    prims = len(primitives())
    v.add(v.g.w["type"](zint(cid)) >= 0)
    v.add(v.g.w["type"](zint(cid)) < prims)


@unit("C10/events", props="C10", uses=[ADD_EVENT, FIN], loops=[Dispatch], concrete=False, weight=3,
      funcs=["vtelem.channel.framer:ChannelFramer.build_event_frames", "vtelem.frame.framer:Framer.new_frame"])
def u_events(v):
    import z3

    from pyvc.sym import SInt, SReal, SSeq, SStr, mk, zint, zstr

    g, reg = base(v, "event", [])
    ints, reals = z3.IntSort(), z3.RealSort()
    name = z3.Function("event_name", ints, z3.StringSort())
    cols = [z3.Function(x, ints, s) for x, s in (("v0", ints), ("t0", reals), ("v1", ints), ("t1", reals))]
    n = v.int("n", 0)

    def pair(i, a):
        return (SInt(cols[a](zint(i))), SReal(cols[a + 1](zint(i))))

    def event(i):
        nm = SStr(name(zint(i)))
        # pending events name registered channels
        v.assume(reg.data["mappings"].contains_term(nm))
        return (nm, pair(i, 0), pair(i, 2))

    def expect(item, j):
        nm = SStr(name(zint(j)))
        cid = reg.data["mappings"].val_base(nm)
        v.check("it is the next event's channel", item[0] == cid)
        in_range(v, cid)
        kind_check(v, "with the channel's type", zint(cid), item[1])
        v.check("previous value and time", v.And(v.same(item[2][0], pair(j, 0)[0]), v.same(item[2][1], pair(j, 0)[1])))
        v.check("new value and time", v.And(v.same(item[3][0], pair(j, 2)[0]), v.same(item[3][1], pair(j, 2)[1])))

    g.expect, g.define, g.due_before = expect, (lambda k: None), (lambda k: mk(zint(k)))
    g.memory, g.after_item = (lambda item: None), (lambda item, k: None)
    events = SSeq(zint(n), event, tag="items")

    class Pending:
        """EventQueue under its contract (C02): drained at once, in order."""

        drained = 0

        def consume(self):
            self.drained += 1
            return events if self.drained == 1 else []

    pending = Pending()
    res = g.framer.build_event_frames(g.time, pending, Sink(v), g.write_crc)
    v.check("pending events are drained", pending.drained >= 1)
    v.check("every event was put into a frame", g.added == n)
    v.check("every frame was queued", g.covered == n)
    v.check("reported frames", res[0] == g.frames)
    v.check("reported events", res[1] == n)
    v.check("no frame without an event", v.Implies(n == 0, g.frames == 0))


@unit("C09/data", props="C09", uses=[ADD, FIN], loops=[Dispatch], concrete=False, weight=3,
      funcs=["vtelem.channel.framer:ChannelFramer.build_data_frames", "vtelem.channel:Channel.emit",
             "vtelem.frame.framer:Framer.new_frame"])
def u_data(v):
    import z3

    from pyvc.sym import SInt, SReal, SSeq, SStr, mk, zb, zint

    from .c06_decode import lazy_channel

    g = v.g
    ints, reals, bools = z3.IntSort(), z3.RealSort(), z3.BoolSort()
    name = z3.Function("chan_name_at", ints, z3.StringSort())
    rate, last = (z3.Function(x, ints, reals) for x in ("rate", "last"))
    value = z3.Function("value", ints, ints)
    count = z3.Function("due_before", ints, ints)
    nth = z3.Function("nth_due", ints, ints)
    n = v.int("n", 0)

    def chan(i):
        t = zint(i)
        res = lazy_channel(g.wc, i)
        res.name = SStr(name(t))
        v.assume(reg.data["mappings"].contains_term(res.name))
        res.rate, res.last_emitted = SReal(rate(t)), SReal(last(t))
        res.data = SInt(value(t))
        res.changed_cb = None
        return res

    from .c06_decode import world

    chans = SSeq(zint(n), chan, tag="items")
    g, reg = base(v, "data", chans)
    g.wc = g.w

    def due(k):
        return SReal(last(zint(k))) + SReal(rate(zint(k))) <= g.time

    def define(k):
        k = zint(k)
        one = z3.If(zb(due(k)), 1, 0)
        v.add(count(k + 1) == count(k) + one)
        v.add(z3.Implies(zb(due(k)), nth(count(k)) == k))

    def expect(item, j):
        t = nth(zint(j))
        cid = reg.data["mappings"].val_base(SStr(name(t)))
        v.check("only due channels are emitted", due(t))
        v.check("it is the next due channel", item[0] == cid)
        v.add(g.w["type"](t) >= 0)
        v.add(g.w["type"](t) < len(primitives()))
        kind_check(v, "with the channel's type", t, item[1])
        v.check("with its current value", v.same(item[2], SInt(value(t))))

    def after_item(item, k):
        v.check("an emitted channel restarts its interval, others do not",
                item.last_emitted == v.Ite(due(k), g.time, SReal(last(zint(k)))))
        v.check("emitting leaves the value alone", v.And(v.same(item.data, SInt(value(zint(k)))),
                                                         item.rate == SReal(rate(zint(k)))))

    v.add(count(0) == 0)
    g.expect, g.define, g.due_before = expect, define, (lambda k: mk(count(zint(k))))
    g.memory, g.after_item = (lambda item: None), after_item
    res = g.framer.build_data_frames(g.time, Sink(v), g.write_crc)
    total = mk(count(zint(n)))
    v.check("every due channel was put into a frame", g.added == total)
    v.check("every frame was queued", g.covered == total)
    v.check("reported frames", res[0] == g.frames)
    v.check("reported emissions", res[1] == total)
    v.check("no frame without an emission", v.Implies(total == 0, g.frames == 0))
    v.check("the lock is free again", g.framer.lock.lock.depth == 0)


# -------------------------------------------------- from builders to the queue
class Batch:
    """Frames built under the contracts of the framer: numbers, by kind.

    Frame j of kind k is the number 2 * j + k.
    """

    def __init__(self, v):
        self.v, self.n = v, {}
        self.parts = {}

    def build(self, kind, time, queue, crc):
        from pyvc.core import Unsupported
        from pyvc.models_queue import Queue

        v = self.v
        v.check("frames of a kind are built once", kind not in self.n)
        v.check("at the dispatch's time", v.same(time, v.g.time))
        v.check("with the environment's checksum option", v.same(crc, v.g.env.write_crc))
        self.n[kind] = n = v.int("frames %d" % kind, 0, 2 ** 20)
        count = v.int("items %d" % kind, 0, 2 ** 20)
        if queue is v.g.env.frame_queue:
            v.check("in order", v.same(v.g.got[kind], 0))
            v.g.out.many(kind, n)
            return n, count
        if not isinstance(queue, Queue):
            raise Unsupported("frames are collected by a %s" % type(queue).__name__)
        v.check("room for all frames", queue.maxsize <= 0)
        self.stage(queue, kind, n)
        return n, count

    def stage(self, queue, kind, n):
        from pyvc.core import Unsupported
        from pyvc.sym import Ite, SSeq, mk, zint

        parts = self.parts.setdefault(id(queue), [])
        if not parts and queue.qsize() != 0:
            raise Unsupported("frames are added to others")
        if not parts:
            elem, total = (lambda i: mk(2 * zint(i) + kind)), n
        elif len(parts) == 1:
            k0, n0 = parts[0]
            elem, total = (lambda i: Ite(mk(zint(i) < zint(n0)), mk(2 * zint(i) + k0), mk(2 * (zint(i) - zint(n0)) + kind))), n0 + n
        else:
            raise Unsupported("frames of several dispatches")
        parts.append((kind, n))
        queue.items = SSeq(zint(total), elem, tag="staged")
        queue.parts, queue.base = tuple(parts), queue.items


class Outgoing:
    """The environment's frame queue: each frame once, in order of its kind."""

    def __init__(self, v, on_put=lambda: None):
        self.v, self.on_put = v, on_put
        v.g.got = {0: 0, 1: 0}

    def many(self, kind, n):
        self.on_put()
        self.v.g.got[kind] = n

    def put(self, frame, *_, **__):
        v, got = self.v, self.v.g.got
        self.on_put()
        kind = 1 if frame % 2 == 1 else 0
        v.check("each frame is queued once, in order", frame == 2 * got[kind] + kind)
        got[kind] = got[kind] + 1

    put_nowait = put


class Forward(LoopSpec):
    """After k rounds: the first k staged frames are in the frame queue."""

    name = "forward"

    def match_while(self, key, n, locs):
        return self.staged(locs) is not None

    def match_for(self, seq, key, n):
        tag = getattr(seq, "tag", None)
        return tag == "staged" or isinstance(tag, tuple) and tag[:1] == ("range",)

    @staticmethod
    def staged(locs):
        for x in locs.values():
            for y in [x] + list(getattr(x, "__dict__", {}).values()):
                if hasattr(y, "parts") and hasattr(y, "base"):
                    return y
        return None

    def parts(self, S):
        from pyvc.core import Unsupported

        if not hasattr(S.cut, "queue"):
            S.cut.queue = self.staged(S.locals)
            if S.cut.queue is None:
                raise Unsupported("no staged frames")
            S.cut.start = dict(S.g.got)
        return S.cut.queue

    def inv(self, S, k):
        from pyvc.sym import And, SSeq, mk, zint

        queue, g = self.parts(S), S.g
        items, base = queue.items, queue.base
        taken = getattr(getattr(S.cut, "seq", None), "tag", None) != "staged"
        ok = isinstance(items, SSeq) and items.elem is base.elem and not items.tail
        want = self.queued(S, k)
        rest = And(mk(items.n == base.n - zint(k)), mk(items.start == zint(k)), mk(zint(k) <= base.n)) if ok else False
        return [("the rest is still staged, in order", rest if taken else True),
                ("what was taken is queued", And(*[mk(zint(g.got[x]) == zint(want[x])) for x in want]))]

    def queued(self, S, k):
        import z3

        from pyvc.sym import mk, zint

        want, k, at = dict(S.cut.start), zint(k), zint(0)
        for kind, n in S.cut.queue.parts:
            here = z3.If(k <= at, 0, z3.If(k >= at + zint(n), zint(n), k - at))
            want[kind] = mk(zint(want[kind]) + here)
            at = at + zint(n)
        return want

    def havoc(self, S, k):
        from pyvc.sym import SSeq, zint

        queue = self.parts(S)
        if getattr(getattr(S.cut, "seq", None), "tag", None) != "staged":
            queue.items = SSeq(queue.base.n - zint(k), queue.base.elem, start=k)
        want = self.queued(S, k)
        for kind in want:
            S.g.got[kind] = want[kind]
        return {}

    def modifies(self, S):
        return [S.cut.queue, S.cut.queue.items, S.g, S.g.got]


def forwarding(v, on_put=lambda: None):
    """A dispatch of an environment whose framer keeps its contract."""
    from vtelem.telemetry.environment import TelemetryEnvironment

    g = v.g
    g.time = v.real("time", 0, 10 ** 12)
    env = g.env = TelemetryEnvironment(2 ** 10, init_time=g.time, metrics_rate=v.choose("metered", [None, 1.0]), app_id_basis=0.5)
    env.write_crc = v.bool("write_crc")
    batch = Batch(v)

    def data(time, queue, write_crc=True):
        return batch.build(0, time, queue, write_crc)

    def events(time, event_queue, queue, write_crc=True):
        v.check("of the environment's events", event_queue is env.event_queue)
        return batch.build(1, time, queue, write_crc)

    env.framer.build_data_frames, env.framer.build_event_frames = data, events
    g.out = env.frame_queue = Outgoing(v, on_put)
    how = v.choose("how", ["dispatch", "dispatch_now", "dispatch_data", "dispatch_events"])
    log = v.choose("should_log", [True, False])
    res = {"dispatch": lambda: env.dispatch(g.time, log), "dispatch_now": lambda: env.dispatch_now(should_log=log),
           "dispatch_data": lambda: env.dispatch_data(g.time), "dispatch_events": lambda: env.dispatch_events(g.time)}[how]()
    return env, batch, how, res


@unit("C09/dispatch", props=("C09", "C10"), loops=[Forward], concrete=False,
      funcs=["vtelem.channel.environment:ChannelEnvironment." + n for n in (
          "dispatch", "dispatch_now", "dispatch_data", "dispatch_events", "enqueue_frames")])
def u_dispatch(v):
    env, batch, how, res = forwarding(v)
    want = {"dispatch_data": [0], "dispatch_events": [1]}.get(how, [0, 1])
    v.check("the right kinds of frames are built", sorted(batch.n) == want)
    for kind in batch.n:
        v.check("every frame built is queued", v.same(v.g.got[kind], batch.n[kind]))
    if len(want) == 2:
        v.check("reported frames", res == batch.n[0] + batch.n[1])
    else:
        v.check("reported frames", res[0] == batch.n[want[0]])
    v.check("the lock is free again", env.lock.lock.depth == 0)


# ------------------------------------------------------- concrete oracle
def drain(queue):
    out = []
    while queue.qsize():
        out.append(queue.get())
    return out


def draw_world(v):
    """An environment, its channels and a model of their state."""
    from vtelem.channel.environment import ChannelEnvironment

    from ._wire import draw_value

    mtu = v.choose("mtu", [BIG, BIG + 1, 60, 64, 80, 128, 1400])
    crc = v.choose("use_crc", [True, False])
    env = ChannelEnvironment(mtu, app_id_basis=v.choose("basis", [0.5, 0.25, 3.0]), use_crc=crc)
    env.write_crc = v.choose("write_crc", [True, True, False])
    chans = []
    for j in range(v.choose("channels", [0, 1, 2, 3, 7, 20])):
        prim = v.choose("type", primitives())
        rate = v.choose("rate", [0.0, 0.5, 1.0, 2.0])
        track = v.choose("track", [True, False])
        cid = env.add_channel("c%d" % j, prim, rate, track)
        chans.append({"id": cid, "prim": prim, "rate": rate, "track": track, "last": 0.0,
                      "value": env.get_value(cid), "time": env.channel_registry.get_item(cid).last_set})
    return env, mtu, crc, chans, draw_value


def read_frames(v, frames, mtu, crc, good, kind, types, now):
    """Elements of a list of frames, checking each frame."""
    from . import _wire

    out = []
    for frame in frames:
        v.check("only finalized frames are queued", frame.finalized)
        data, size = frame.raw
        blob = bytes(data)
        v.check("a frame fits the MTU", size <= mtu and len(blob) == size)
        v.check("right kind of frame", blob[2] == _wire.KINDS[kind])
        try:
            app, stamp, elems = (_wire.read_data if kind == "data" else _wire.read_event)(blob, types, crc)
        except (AssertionError, KeyError) as exc:
            v.check("well-formed frame", False)
            raise exc
        v.check("no empty frame is queued", len(elems) > 0)
        v.check("frames carry the dispatch's header", stamp == _wire.millis(now))
        if crc and good:
            v.check("valid checksum", _wire.good_crc(blob))
        out += elems
    return out


def play(v, kind):
    env, mtu, crc, chans, draw_value = draw_world(v)
    types = {c["id"]: c["prim"] for c in chans}
    now, pending = 0.0, []
    for _ in range(v.choose("rounds", [1, 2, 4])):
        now += v.choose("step", [0.0, 0.25, 0.5, 1.0, 2.5])
        for _ in range(v.choose("sets", [0, 1, 3, 12]) if chans else 0):
            c = chans[v.index("which", len(chans))]
            val = draw_value(v, c["prim"])
            v.check("assignment accepted", env.channel_registry.get_item(c["id"]).set(val, now))
            if c["track"] and val != c["value"]:
                pending.append((c["id"], (c["value"], 0 if c["time"] is None else c["time"]), (val, now)))
            c["value"], c["time"] = val, now
        how = v.choose("how", ["framer", "environment"])
        env.framer.lock.__enter__()
        env.framer.lock.__exit__(None, None, None)
        due = [c for c in chans if now >= c["last"] + c["rate"]]
        want_data = [(c["id"], c["value"]) for c in due]
        want_events = [(e[0], (e[1][0], _ms(e[1][1])), (e[2][0], _ms(e[2][1]))) for e in pending]
        if how == "environment":
            total = env.dispatch(now, False)
            frames = drain(env.frame_queue)
            v.check("reported frames", total == len(frames))
            data = [f for f in frames if f.raw[0][2] == 1]
            events = [f for f in frames if f.raw[0][2] != 1]
        else:
            got = env.framer.build_data_frames(now, env.frame_queue, env.write_crc)
            data = drain(env.frame_queue)
            v.check("reported frames", got[0] == len(data))
            v.check("reported emissions", got[1] == len(due))
            got = env.framer.build_event_frames(now, env.event_queue, env.frame_queue, env.write_crc)
            events = drain(env.frame_queue)
            v.check("reported frames", got[0] == len(events))
            v.check("reported events", got[1] == len(pending))
        for c in due:
            c["last"] = now
        if kind == "data":
            v.check("exactly the due channels, once, in order, with their values",
                    read_frames(v, data, mtu, crc, env.write_crc, "data", types, now) == want_data)
        else:
            v.check("exactly the pending events, once, in order",
                    read_frames(v, events, mtu, crc, env.write_crc, "event", types, now) == want_events)
            v.check("events are drained", env.event_queue.queue.qsize() == 0)
        pending = []


def _ms(time):
    from ._wire import millis

    return millis(float(time))


@search("C09")
def dispatch_data(v):
    """Histories of assignments and dispatches against a plain model."""
    play(v, "data")


@search("C10")
def dispatch_events(v):
    play(v, "event")
