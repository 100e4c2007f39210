"""C11: fragmentation is an exact partition of the message."""
from pyvc.api import search, unit
from pyvc.loops import LoopSpec

from .c03_codec import enc
from .c05_frames import CRC, HDR, header_bytes, new_frame
from .c06_decode import FIELDS, find_lists, rebind

MSG = 11
FUNCS = ["vtelem.message.framer:MessageFramer.serialize_message", "vtelem.message.framer:MessageFramer.message_frame",
         "vtelem.frame.message:MessageFrame.initialize", "vtelem.frame.message:MessageFrame.create_fields",
         "vtelem.frame.message:frames_required", "vtelem.frame:Frame.finalize", "vtelem.frame.framer:Framer.new_frame"]


def field_bytes(v, vals):
    from vtelem.classes import DEFAULTS

    out = b""
    for (_, alias), val in zip(FIELDS, vals):
        out = out + enc(v, DEFAULTS[alias], val)
    return out


def the_fields(v):
    """Field primitives with arbitrary values."""
    from vtelem.classes import DEFAULTS

    from ._common import type_primitive

    return {name: type_primitive(v, DEFAULTS[alias], name) for name, alias in FIELDS}


@unit("C11/frame", props=["C11", "C05", "C06"], funcs=FUNCS)
def u_frame(v):
    """A message frame is header, fields, fragment, checksum; within the MTU when it was sized for it."""
    import zlib

    from vtelem.classes import DEFAULTS

    mtu = v.int("mtu", HDR + CRC + 1, 65535, cmax=200)
    frame, head, use_crc = new_frame(v, "message", mtu=mtu)
    fields = the_fields(v)
    frag = v.bytes("fragment")
    n = v.call(len, frag)
    over = HDR + MSG + (CRC if use_crc else 0)
    v.assume(over + n <= mtu)
    v.check("overhead is exact", frame.frame_overhead == over)
    v.check("the size can be told beforehand", frame.frame_size(frag) == over + n)
    frame.initialize(fields, frag)
    v.check("a frame takes one fragment", v.fails(lambda: frame.initialize(fields, frag), AssertionError))
    good = v.choose("write_crc", [True, False])
    size = frame.finalize(good)
    data, used = frame.raw
    v.check("size is exact", v.And(size == over + n, used == size, v.call(len, data) == size))
    v.check("within the MTU", size <= mtu)
    v.check("header with the fragment's length", v.same(data[0:HDR], header_bytes(v, head, n)))
    v.check("fields follow", v.same(data[HDR:HDR + MSG], field_bytes(v, [fields[name].data for name, _ in FIELDS])))
    v.check("then the fragment", v.same(data[HDR + MSG:HDR + MSG + n], frag))
    if use_crc and good:
        v.check("then the checksum of everything before", v.same(
            data[HDR + MSG + n:size], enc(v, DEFAULTS["crc"], v.call(zlib.crc32, data[0:HDR + MSG + n]))))


AHEAD = "the current frame is new while data is left"


class Fragments(LoopSpec):
    """After k rounds: k frames hold the first k fragments."""

    name = "fragments"

    def match_for(self, seq, key, n):
        tag = getattr(seq, "tag", None)
        return isinstance(tag, tuple) and tag[:1] == ("range",)

    def match_while(self, key, n, locs):
        from vtelem.frame.message import MessageFrame

        return any(isinstance(x, MessageFrame) for x in locs.values())

    def ghosts(self, S, k):
        g = S.g
        at = g.start(k)
        return {"consumed": at, "left": -at, "bytes": at + g.over * g.num(k)}

    def frame(self, S):
        from pyvc.core import Unsupported

        from vtelem.frame.message import MessageFrame

        names = S.role(MessageFrame)
        if len({id(S.locals[n]) for n in names}) > 1:
            raise Unsupported("no single current frame")
        return names, S.locals[names[0]] if names else None

    def inv(self, S, k):
        from pyvc.sym import mk, zint

        g, c = S.g, S.ctx
        g.lemma(k)
        _, frame = self.frame(S)
        return [("inside the message", c.And(mk(zint(k)) <= g.total, g.start(k) <= g.n, g.start(k) >= 0)),
                ("the first frame is new", c.Or(mk(zint(k)) > 0, self.new(c, frame)))]

    def new(self, c, frame):
        return True if frame is None else c.Not(c.Or(frame.initialized, frame.finalized))

    def maybe(self, S, k):
        """Frames are made ahead (or else when they are needed)."""
        g, c = S.g, S.ctx
        return [(AHEAD, c.Or(g.start(k) == g.n, self.new(c, self.frame(S)[1])))]

    def havoc(self, S, k):
        from pyvc.core import Unsupported
        from pyvc.sym import SSeq

        g = S.g
        lists = [x for x in find_lists(S) if x[0] is None]
        if not lists or len({id(x[2]) for x in lists}) != 1:
            raise Unsupported("no single list collects the frames")
        self.seq = SSeq(k, lambda i: ("frame", i), tag="frames")
        out = rebind(lists, self.seq)
        names, frame = self.frame(S)
        if frame is not None:
            ahead = (S.cut.key, "maybe", AHEAD) not in S.ctx.houdini_dead
            if k == 0 or (g.start(k) < g.n if ahead else S.ctx.bool("new")):
                frame = g.fresh()
            else:
                frame = g.used_up()
            out.update({n: frame for n in names})
        return out

    def step_begin(self, S, k, item):
        g = S.g
        g.lemma(k)
        names, _ = self.frame(S)
        self.first = S.locals[names[0]] if names else None

    def step_end(self, S, k):
        from pyvc.sym import mk

        c, g = S.ctx, S.g
        c.check("each round makes one frame", len(self.seq.tail) == 1)
        if len(self.seq.tail) == 1:
            g.check_frame(self.seq.tail[0], k)
        self.seq.tail.clear()
        self.seq.n = k + 1

    def modifies(self, S):
        return [S.g, self.seq, self.seq.tail, S.g.fields_mem]

    def frame_ok(self, S, obj, path, lab, old, new):
        from vtelem.classes.byte_buffer import ByteBuffer
        from vtelem.classes.type_primitive import TypePrimitive
        from vtelem.frame.message import MessageFrame

        # frames are checked when they are made; field values by each frame
        return isinstance(obj, (MessageFrame, ByteBuffer, TypePrimitive)) or ".count" in path or ".buffer" in path


@unit("C11/serialize", props="C11", funcs=FUNCS, loops=[Fragments], concrete=False, weight=3)
def u_serialize(v):
    import z3
    import zlib

    from pyvc.sym import mk, quotient, zint

    from vtelem.classes import DEFAULTS
    from vtelem.frame import time_to_int
    from vtelem.frame.message import MessageFrame
    from vtelem.message.framer import MessageFramer
    from vtelem.types.frame import MessageType

    g = v.g
    g.v = v
    kinds = list(MessageType)
    use_crc, mtype = v.choose("checksum and type", [(True, m) for m in kinds] + [(False, kinds[1])])
    g.over = HDR + MSG + (CRC if use_crc else 0)
    mtu = v.int("mtu", HDR + CRC + 1, 65535)
    per = mtu - g.over
    framer = MessageFramer(mtu, None, use_crc)
    number = v.int("number", 0, 65535)
    framer.message_numbers[mtype] = number
    others = {m: v.int("other number", 0, 65535) for m in MessageType if m is not mtype}
    framer.message_numbers.update(others)
    message = v.bytes("message")
    g.n = v.call(len, message)
    time = v.real("time", 0, 10 ** 12)
    crc = v.call(zlib.crc32, message)
    start = z3.Function("fragment_start", z3.IntSort(), z3.IntSort())
    v.add(start(0) == 0)
    g.start = lambda k: mk(start(zint(k)))
    g.num = lambda k: mk(zint(k))
    g.fields_mem = []
    # the number of fragments: the least t with t * per >= n
    tot = z3.Int(v.fresh_name("total"))
    if per > 0:
        tot = z3.simplify(-quotient(z3.simplify(-zint(g.n)), z3.simplify(zint(per))))
        v.check("the number of fragments covers the message", mk(tot) * per >= g.n)
        v.check("no fragment more than needed", mk(tot) * per - per < g.n)
        v.add(tot >= 0)
    g.total = mk(tot)

    def lemma(k):
        """fragment k starts at min(k * per, n); by definition of total."""
        k = zint(k)
        p, n = zint(per), zint(g.n)
        v.add(z3.Implies(p > 0, z3.And(
            start(k + 1) == z3.If(start(k) + p < n, start(k) + p, n),
            start(k) == z3.If(k * p < n, k * p, n),
            z3.Implies(z3.And(k >= 0, k < tot), k * p < n),
            z3.Implies(k == tot, k * p >= n))))

    g.lemma = lemma
    g.fresh = lambda: framer.message_frame(time)
    head = enc(v, DEFAULTS["id"], framer.primitives["app_id"].get()) + enc(v, DEFAULTS["enum"], 3) \
        + enc(v, DEFAULTS["timestamp"], time_to_int(time))

    def used_up():
        frame = framer.message_frame(time)
        frame.initialized = frame.finalized = True
        return frame

    def check_frame(frame, k):
        lo, hi = g.start(k), g.start(k + 1)
        size = hi - lo
        v.check("frames are finalized", frame.finalized)
        data, used = frame.raw
        v.check("a frame fits the MTU", used <= mtu)
        v.check("a frame is as long as announced", v.And(used == g.over + size, v.call(len, data) == used))
        v.check("no fragment is empty", size > 0)
        v.check("header of the message", v.same(data[0:HDR], head + enc(v, DEFAULTS["count"], size)))
        v.check("numbered consecutively under one total", v.same(
            data[HDR:HDR + MSG], field_bytes(v, [mtype.value, number, crc, mk(zint(k)), g.total])))
        v.check("the fragment continues the message", v.same(data[HDR + MSG:HDR + MSG + size], message[lo:hi]))
        if use_crc:
            v.check("a valid frame checksum", v.same(
                data[HDR + MSG + size:used], enc(v, DEFAULTS["crc"], v.call(zlib.crc32, data[0:HDR + MSG + size]))))

    g.used_up, g.check_frame = used_up, check_frame
    got = v.outcome(lambda: v.call(framer.serialize_message, message, time, mtype))
    carried = v.And(per > 0, g.total <= 65535)
    if got[0] == "raise":
        v.check("refused only when it cannot be carried", v.Not(carried))
        return
    v.check("refused when it cannot be carried", carried)
    frames, total = got[1]
    m = v.call(len, frames)
    lemma(m)
    v.check("as many frames as announced", m == g.total)
    v.check("fragments start with the message", g.start(0) == 0)
    v.check("fragments end with the message", g.start(m) == g.n)
    v.check("reported bytes are the sum of the frame sizes", total == g.n + g.over * m)
    v.check("the next message has the next number", framer.message_numbers[mtype] == v.Ite(number == 65535, 0, number + 1))
    v.check("other types keep their numbers", v.And(*[v.same(framer.message_numbers[m], x) for m, x in others.items()]))


@unit("C11/lemma", props="C11", concrete=False)
def u_lemma(v):
    """start(k) = min(k * per, n) follows from its recursion; the least t with
    t * per >= n bounds it.
    """
    n, per, k, tot = v.int("n", 0), v.int("per", 1), v.int("k", 0), v.int("total", 0)
    v.assume(tot * per >= n)
    v.assume((tot - 1) * per < n)
    lo = v.Ite(k * per < n, k * per, n)
    hi = v.Ite(lo + per < n, lo + per, n)
    v.check("step", hi == v.Ite((k + 1) * per < n, (k + 1) * per, n))
    v.check("start", v.Implies(k == 0, lo == 0))
    # for integers: k < tot gives k <= tot - 1
    d = tot - 1 - k
    v.assume(v.Implies(d >= 0, d * per >= 0))
    v.check("before the last", v.Implies(k < tot, k * per < n))
    v.check("no message has a negative number of fragments", v.Implies(tot < 0, tot * per + per <= 0))
    v.check("at the end", v.Implies(k == tot, k * per >= n))


@unit("C11/text", props="C11", funcs=["vtelem.message.framer:MessageFramer.serialize_message_" + n for n in (
    "str", "json")] + ["vtelem.message.framer:MessageFramer.serialize_object"], concrete=False)
def u_text(v):
    """Texts and objects are sent as the bytes of their text, typed as such."""
    from vtelem.message.framer import MessageFramer
    from vtelem.types.frame import MessageType

    framer = MessageFramer(100, 0.5)
    calls = []
    framer.serialize_message = lambda message, time=None, message_type=None: calls.append(
        (message, time, message_type)) or "result"
    text, time = v.str("text"), v.real("time")
    how = v.choose("how", ["str", "json", "object"])
    if how == "str":
        res = v.call(framer.serialize_message_str, text, time)
        want = (v.call(text.encode), MessageType.TEXT)
    elif how == "json":
        res = v.call(framer.serialize_message_json, {"a": 1}, time)
        want = (b'{"a": 1}', MessageType.JSON)
    else:
        class Thing:
            def json_str(self, **_):
                return text

        res = v.call(framer.serialize_object, Thing(), time)
        want = (v.call(text.encode), MessageType.JSON)
    v.check("sent once", v.And(res == "result", len(calls) == 1))
    v.check("as its bytes", v.same(calls[0][0], want[0]))
    v.check("with its type and time", v.And(calls[0][2] is want[1], v.same(calls[0][1], time)))


@search("C11")
def fragments(v):
    """Real messages against the independent wire description."""
    import zlib

    from vtelem.message.framer import MessageFramer
    from vtelem.types.frame import MessageType

    from . import _wire

    crc = v.choose("crc", [True, False])
    over = HDR + MSG + (CRC if crc else 0)
    per = v.choose("payload", [1, 2, 3, 7, 10, 64])
    framer = MessageFramer(over + per, v.choose("basis", [0.5, 0.25, 2.0]), crc)
    numbers = {m: 0 for m in MessageType}
    if v.choose("late", [False, False, True]):
        numbers = {m: 65534 for m in MessageType}
        framer.message_numbers = dict(numbers)
    for _ in range(v.choose("messages", [1, 2, 4])):
        size = v.choose("size", [0, 1, per - 1, per, per + 1, 2 * per - 1, 2 * per, 2 * per + 1, 5 * per, 300])
        msg = v.bytes("msg", n=size)
        mtype = v.choose("type", list(MessageType))
        time = v.choose("time", [0.0, 1.5, 12345.678])
        frames, total = framer.serialize_message(msg, time, mtype)
        got, sizes = b"", 0
        for i, frame in enumerate(frames):
            blob = bytes(frame.raw[0])
            part = msg[i * per:(i + 1) * per]
            want = _wire.message_frame(framer.primitives["app_id"].get(), _wire.millis(time),
                                       (mtype.value, numbers[mtype], zlib.crc32(msg), i, len(frames)), part, crc)
            v.check("each fragment frame is the one described", blob == want)
            v.check("within the MTU", len(blob) <= over + per and frame.raw[1] == len(blob))
            got += part
            sizes += len(blob)
        v.check("fragments are the whole message", got == msg)
        v.check("reported bytes", total == sizes)
        numbers[mtype] = (numbers[mtype] + 1) % 65536
    low = v.int("low", 20, over)
    v.check("no room for payload is refused", v.fails(lambda: MessageFramer(low, 0.5, crc).serialize_message(b"x", 0.0)))
