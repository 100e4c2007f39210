"""C06: decoding returns what was encoded.  C07: anything else is rejected."""
from pyvc.api import search, unit
from pyvc.loops import LoopSpec

from ._common import any_prim, bounds, primitives, value_of, wire
from .c03_codec import dec_at
from .c05_frames import CRC, HDR

FUNCS = ["vtelem.parsing.encapsulation:" + n for n in ("decode_frame", "parse_frame_header", "parse_frame_footer")] + [
    "vtelem.parsing.frames:" + n for n in (
        "parse_data_frame", "parse_event_frame", "parse_message_frame", "parse_stream_frame", "parse_invalid_frame")]
TYPES = {0: "INVALID", 1: "DATA", 2: "EVENT", 3: "MESSAGE", 4: "STREAM"}
FIELDS = [("message_type", "enum"), ("message_number", "id"), ("message_crc", "crc"),
          ("fragment_index", "id"), ("total_fragments", "id")]


def world():
    """Symbolic registry: which ids are registered, their type, stream flag."""
    import z3

    ints, bools = z3.IntSort(), z3.BoolSort()
    return {
        "reg": z3.Function("registered", ints, bools), "stream": z3.Function("is_stream", ints, bools),
        "type": z3.Function("type_of", ints, ints), "off": z3.Function("offset", ints, ints),
    }


def size_term(w, t):
    """Wire size of the type of channel t."""
    import z3

    prims = primitives()
    res = z3.IntVal(wire(prims[-1])[1])
    for j, p in enumerate(prims[:-1]):
        res = z3.If(w["type"](t) == j, z3.IntVal(wire(p)[1]), res)
    return res


def lazy_channel(w, cid):
    from pyvc import core
    from pyvc.sym import SBool, SStr, zint

    from vtelem.channel import Channel

    class LazyChannel(Channel):
        """A registered channel whose type is decided when it is looked at."""

        def __init__(self):  # pylint: disable=super-init-not-called
            import z3

            t = zint(cid)
            self.cid = cid
            self.is_stream = SBool(w["stream"](t))
            self.name = SStr(z3.Function("chan_name", z3.IntSort(), z3.StringSort())(t))

        @property
        def type(self):
            prims = primitives()
            for j, p in enumerate(prims[:-1]):
                if core.CUR.branch(w["type"](zint(self.cid)) == j):
                    return p
            return prims[-1]

        @type.setter
        def type(self, _):
            pass

    LazyChannel.__module__ = "vtelem.channel"
    return LazyChannel()


def symbolic_registry(v, w):
    from pyvc.sym import SMap, mk, zint

    from vtelem.channel.registry import ChannelRegistry

    res = ChannelRegistry()
    res.data[res.type_name] = SMap(lambda k: mk(w["reg"](zint(k))), lambda k: lazy_channel(w, k),
                                   default=lambda: None, name="channels")
    return res


def find_lists(S, empty=True):
    """Mutable lists a loop fills: locals and entries of local dicts."""
    out = []
    for name, val in S.locals.items():
        if isinstance(val, list) and (not empty or not val):
            out.append((None, name, val))
        if isinstance(val, dict):
            for key, sub in val.items():
                if isinstance(sub, list) and (not empty or not sub):
                    out.append((val, key, sub))
    return out


def rebind(lists, seq):
    """Let the symbolic sequence take the place of a list everywhere."""
    import sys

    from pyvc.core import Unsupported

    lst = lists[0][2]
    frame, seen = sys._getframe(1), 0  # pylint: disable=protected-access
    while frame is not None:
        if "_vc_" in frame.f_globals:
            seen += 1
            if seen > 1 and any(x is lst for x in frame.f_locals.values()):
                raise Unsupported("the list a loop fills is shared with a caller")
        frame = frame.f_back
    out = {}
    for owner, key, _ in lists:
        if owner is None:
            out[key] = seq
        else:
            owner[key] = seq
    return out


def the_buffer(S):
    from pyvc.core import Unsupported

    from vtelem.classes.byte_buffer import ByteBuffer

    bufs = {id(val): val for val in S.locals.values() if isinstance(val, ByteBuffer)}
    if len(bufs) != 1:
        raise Unsupported("no single buffer in reach of the loop")
    return list(bufs.values())[0]


class IdsLoop(LoopSpec):
    """Element i is {id: i-th id of the frame, channel: its registration}."""

    name = "ids"

    def match_for(self, seq, key, n):
        tag = getattr(seq, "tag", None)
        return isinstance(tag, tuple) and tag and tag[0] == "range" and not getattr(self, "used", False)

    def inv(self, S, k):
        from pyvc.sym import mk

        buf = the_buffer(S)
        if not hasattr(self, "p0"):
            self.used = True
            self.p0 = buf.pos
        return [("position", mk_eq(buf.pos, self.p0 + mk(k) * 2)), ("inside", buf.pos <= S.g.size)]

    def havoc(self, S, k):
        from pyvc.core import Unsupported
        from pyvc.sym import SSeq, mk

        buf = the_buffer(S)
        buf.pos = self.p0 + mk(k) * 2
        lists = find_lists(S)
        if not lists or len({id(x[2]) for x in lists}) != 1:
            raise Unsupported("no single list collects the elements")
        self.seq = SSeq(k, lambda i: known_elem(S, self.p0, i, k), tag="decoded")
        return rebind(lists, self.seq)

    def step_begin(self, S, k, item):
        facts(S.g, self.p0, k)

    def step_end(self, S, k):
        c = S.ctx
        c.check("each iteration adds one element", len(self.seq.tail) == 1)
        if len(self.seq.tail) == 1:
            c.check_same("element k is the k-th id with its channel", strip(self.seq.tail[0]),
                         strip(id_elem(S.g, self.p0, k)))
        c.check("element k is registered, and no stream", is_known(S.g, self.p0, k))
        self.seq.tail.clear()
        self.seq.n = k + 1

    def modifies(self, S):
        return [the_buffer(S), self.seq, self.seq.tail, S.g]

    def frame_ok(self, S, obj, path, lab, old, new):
        return True if (isinstance(obj, list) and "overlay" in path) else False

    def leave(self, S, k):
        S.g.p1 = the_buffer(S).pos


def mk_eq(a, b):
    return a == b


def the_id(g, p0, i):
    from pyvc.sym import mk, zint

    from vtelem.classes import DEFAULTS

    at = p0 + mk(zint(i)) * 2
    return dec_at(g.v, DEFAULTS["id"], g.data, at)


def id_elem(g, p0, i):
    cid = the_id(g, p0, i)
    return {"id": cid, "channel": lazy_channel(g.w, cid)}


def is_known(g, p0, i):
    import z3

    from pyvc.sym import mk, zint

    t = zint(the_id(g, p0, i))
    return mk(z3.And(g.w["reg"](t), z3.Not(g.w["stream"](t))))


def known_elem(S, p0, i, k):
    """Element i of the list: checked for element k of every iteration."""
    import z3

    from pyvc.sym import zb, zint

    S.ctx.add(z3.Implies(z3.And(zint(i) >= 0, zint(i) < k), zb(is_known(S.g, p0, i))))
    return id_elem(S.g, p0, i)


def strip(elem):
    """The observable part of an element (channels by identity of the id)."""
    out = {}
    for k, x in elem.items():
        if k == "channel":
            out[k] = ("channel", x.cid if x is not None and hasattr(x, "cid") else x)
        else:
            out[k] = x
    return out


def facts(g, p0, k):
    """Instances for element k: offsets add up, sizes are positive."""
    from pyvc.sym import zint

    c = g.v
    t = zint(the_id(g, p0, k))
    step = g.step(size_term(g.w, t))
    off = g.w["off"]
    c.add(off(k + 1) == off(k) + step)
    if g.valid:
        import z3

        # instances of: every id is registered and no stream; offsets rise
        c.add(g.w["reg"](t))
        c.add(z3.Not(g.w["stream"](t)))
        c.add(z3.Implies(k < zint(g.n), off(k + 1) <= off(zint(g.n))))
    prims = len(primitives())
    c.add(g.w["type"](t) >= 0)
    c.add(g.w["type"](t) < prims)


class ValuesLoop(LoopSpec):
    """Element i gains the value(s) at the i-th offset, in its own type."""

    name = "values"
    tag = "decoded"

    def inv(self, S, k):
        from pyvc.sym import mk

        buf = the_buffer(S)
        off = S.g.w["off"]
        if not hasattr(self, "p1"):
            self.p1 = buf.pos
            S.ctx.add(off(0) == 0)
            self.seq = S.cut.seq
        return [("position", mk_eq(buf.pos, self.p1 + mk(off(k)))), ("offsets rise", mk(off(k) >= k)), ("inside", buf.pos <= S.g.size)]

    def havoc(self, S, k):
        from pyvc.sym import mk

        the_buffer(S).pos = self.p1 + mk(S.g.w["off"](k))
        return {}

    def step_begin(self, S, k, item):
        facts(S.g, S.g.p0, k)

    def step_end(self, S, k):
        item = S.cut.item
        if isinstance(item, tuple):
            item = item[-1]
        S.ctx.check_same("element k carries what is at its offset", strip(item), strip(full_elem(S.g, self.p1, k)))

    def modifies(self, S):
        return [the_buffer(S), S.cut.item, S.g]

    def frame_ok(self, S, obj, path, lab, old, new):
        return isinstance(obj, list) and "overlay" in path

    def leave(self, S, k):
        def elem(i):
            known_elem(S, S.g.p0, i, k)
            return full_elem(S.g, self.p1, i)

        self.seq.elem = elem


def full_elem(g, p1, i):
    """What element i of the decoded frame must be."""
    from pyvc.sym import mk, zint

    from vtelem.classes import DEFAULTS

    v = g.v
    elem = id_elem(g, g.p0, i)
    facts(g, g.p0, zint(i))
    at = p1 + mk(g.w["off"](zint(i)))
    prim = elem["channel"].type
    size = wire(prim)[1]
    if g.kind == "DATA":
        elem["value"] = dec_at(v, prim, g.data, at)
        return elem
    stamp = DEFAULTS["timestamp"]
    elem["previous"] = {"value": dec_at(v, prim, g.data, at),
                        "time": dec_at(v, stamp, g.data, at + size)}
    elem["current"] = {"value": dec_at(v, prim, g.data, at + size + 8),
                       "time": dec_at(v, stamp, g.data, at + 2 * size + 8)}
    return elem


def setup(v, valid, kind):
    """Ghost vocabulary of a decoding run over arbitrary bytes."""
    g = v.g
    g.v, g.valid, g.kind = v, valid, kind
    g.w = world()
    g.data = v.bytes("data")
    g.size = v.call(len, g.data)
    g.p0 = HDR
    g.step = (lambda s: s) if kind == "DATA" else (lambda s: 2 * s + 16)
    g.reg = symbolic_registry(v, g.w)
    return g


def head(v, data):
    from vtelem.classes import DEFAULTS

    return (dec_at(v, DEFAULTS["id"], data, 0), dec_at(v, DEFAULTS["enum"], data, 2),
            dec_at(v, DEFAULTS["timestamp"], data, 3), dec_at(v, DEFAULTS["count"], data, 11))


LOOPS = [IdsLoop, ValuesLoop]


def check_header(v, res, hdr, size):
    app, kind, stamp, count = hdr
    v.check("application id", v.same(res.header.app_id, app))
    v.check("frame type", v.same(int(res.header.type), kind))
    v.check("time stamp", v.same(res.header.timestamp, stamp))
    v.check("element count", v.same(res.header.size, count))
    v.check("length", v.same(res.header.length, size))


def expected(v, name="expected"):
    from vtelem.classes.type_primitive import new_default

    if not v.choose(name + ".given", [True, False]):
        return None
    prim = new_default("id")
    prim.data = v.int(name, 0, 65535)
    return prim


def crc_rule(v, res, data, size, end):
    """end: where the payload ends. The checksum covers all before it."""
    import zlib

    from vtelem.classes import DEFAULTS

    if size - end >= CRC:
        got = dec_at(v, DEFAULTS["crc"], data, end)
        v.check("checksum is the transmitted one", v.same(res.footer.crc, got))
        v.check("checksum matches every byte before it", v.same(got, v.call(zlib.crc32, data[0:end])))
    else:
        v.check("no checksum, none claimed", res.footer.crc is None)


def make_decode(kind):
    def fn(v):
        from vtelem.parsing.encapsulation import decode_frame

        code = [k for k, x in TYPES.items() if x == kind][0]
        g = setup(v, False, kind)
        data = g.data
        size = v.call(len, data)
        exp = expected(v)
        v.assume(size >= HDR)
        hdr = head(v, data)
        v.assume(hdr[1] == code)
        g.n = hdr[3]
        got = v.outcome(lambda: decode_frame(g.reg, data, size, exp))
        v.check("decoding never raises", got[0] == "ok")
        if got[0] != "ok":
            return
        res = got[1]
        if exp is not None:
            v.check("foreign frames are rejected", v.Implies(hdr[0] != exp.data, res is None))
        if res is None:
            return
        v.check("a decoded frame is an expected one", exp is None or v.same(hdr[0], exp.data))
        check_header(v, res, hdr, size)
        payload(v, g, kind, res, data, size, hdr[3])

    return fn


def payload(v, g, kind, res, data, size, count):
    from pyvc.sym import mk, zint

    if kind in ("DATA", "EVENT"):
        seq = res.body["channels" if kind == "DATA" else "events"]
        v.check("as many elements as announced", v.call(len, seq) == count)
        p1 = HDR + 2 * count
        end = p1 + mk(g.w["off"](zint(count)))
        if v.choose("look at", ["element", "end"]) == "element":
            i = v.index("i", count)
            want = full_elem(g, p1, i)
            v.check_same("element i", strip(seq[i]), strip(want))
            v.check("its channel is registered", mk(g.w["reg"](zint(want["id"]))))
            v.cover("element")
        else:
            v.check("all of it is inside the frame", end <= size)
            crc_rule(v, res, data, size, end)
    elif kind == "MESSAGE":
        from vtelem.classes import DEFAULTS

        at = HDR
        for name, alias in FIELDS:
            prim = DEFAULTS[alias]
            n = wire(prim)[1]
            v.check("field " + name, v.same(res.body[name], dec_at(v, prim, data, at)))
            at += n
        v.check("fragment inside the frame", at + count <= size)
        v.check("fragment", v.same(res.body["fragment_bytes"], data[at:at + count]))
        crc_rule(v, res, data, size, at + count)
    elif kind == "STREAM":
        from vtelem.classes import DEFAULTS

        cid = dec_at(v, DEFAULTS["id"], data, HDR)
        v.check("stream channel id", v.same(res.body["id"], cid))
        chan = res.body["channel"]
        v.check("stream channel is registered as a stream", v.And(mk(g.w["reg"](zint(cid))), chan.is_stream))
        v.check("stream index", v.same(res.body["index"], dec_at(v, DEFAULTS["count"], data, HDR + 2)))
        n = count * wire(chan.type)[1]
        v.check("stream data", v.same(res.body["data"], data[HDR + 6:HDR + 6 + n]))
        crc_rule(v, res, data, size, HDR + 6 + n)
    else:
        v.check("not interpreted", v.same(res.body["valid"], False))


for _kind in TYPES.values():
    unit("C07/decode_" + _kind.lower(), props=["C06", "C07"] if _kind in ("DATA", "EVENT", "MESSAGE") else "C07",
         funcs=FUNCS, loops=LOOPS, concrete=False, weight=2)(make_decode(_kind))


@unit("C07/header", props="C07", funcs=FUNCS, loops=LOOPS)
def u_header(v):
    """Short input, and types nobody knows."""
    from vtelem.channel.registry import ChannelRegistry
    from vtelem.parsing.encapsulation import decode_frame

    data = v.bytes("data", maxn=60)
    size = v.call(len, data)
    exp = expected(v)
    if v.choose("case", ["short", "unknown type"]) == "short":
        v.assume(size < HDR)
    else:
        v.assume(size >= HDR)
        v.assume(v.byte(data, 2) > 4)
    got = v.outcome(lambda: decode_frame(ChannelRegistry(), data, size, exp))
    v.check("decoding never raises", got[0] == "ok")
    if got[0] == "ok":
        v.check("rejected", got[1] is None)


def make_valid(kind):
    def fn(v):
        """A well-formed frame is never rejected."""
        import zlib

        from pyvc.sym import mk, zint

        from vtelem.classes import DEFAULTS
        from vtelem.parsing.encapsulation import decode_frame

        code = [k for k, x in TYPES.items() if x == kind][0]
        g = setup(v, True, kind)
        data = g.data
        size = v.call(len, data)
        v.assume(size >= HDR)
        hdr = head(v, data)
        v.assume(hdr[1] == code)
        exp = expected(v)
        if exp is not None:
            v.assume(exp.data == hdr[0])
        g.n = count = hdr[3]
        if kind == "MESSAGE":
            end = HDR + 11 + count
        else:
            end = HDR + 2 * count + mk(g.w["off"](zint(count)))
            v.add(g.w["off"](zint(count)) >= zint(count))
        if v.choose("crc", [True, False]):
            v.assume(size == end + CRC)
            v.assume(v.same(dec_at(v, DEFAULTS["crc"], data, end), v.call(zlib.crc32, data[0:end])))
        else:
            v.assume(size == end)
        got = v.outcome(lambda: decode_frame(g.reg, data, size, exp))
        v.check("a well-formed frame is decoded", got[0] == "ok" and got[1] is not None)

    return fn


for _kind in ("DATA", "EVENT", "MESSAGE"):
    unit("C06/valid_" + _kind.lower(), props="C06", funcs=FUNCS, loops=LOOPS, concrete=False, weight=2)(make_valid(_kind))


def draw_elems(v, types, event):
    from ._wire import draw_value

    out = []
    if types:
        for _ in range(v.choose("count", [0, 1, 2, 3, 7, 12])):
            cid = v.choose("id", sorted(types))
            prim = types[cid]
            if event:
                out.append((cid, prim, (draw_value(v, prim), v.int("t0", 0, 2 ** 40)),
                            (draw_value(v, prim), v.int("t1", 0, 2 ** 40))))
            else:
                out.append((cid, prim, draw_value(v, prim)))
    return out


def check_elems(v, res, elems, event, reg):
    body = res.body["events" if event else "channels"]
    v.check("as many elements as were put in", len(body) == len(elems))
    for got, want in zip(body, elems):
        v.check("same identifier", got["id"] == want[0])
        v.check("registered channel", got["channel"] is reg.get_item(want[0]))
        if not event:
            v.check("same value", got["value"] == want[2])
            continue
        for key, pair in (("previous", want[2]), ("current", want[3])):
            v.check("same value", got[key]["value"] == pair[0])
            v.check("same time", got[key]["time"] == pair[1])


@search("C06")
def roundtrip(v):
    """What ChannelFrame/MessageFrame built decodes to what went in."""
    from vtelem.channel.framer import ChannelFramer
    from vtelem.classes.time_entity import OptionalRLock
    from vtelem.classes.type_primitive import new_default
    from vtelem.parsing.encapsulation import decode_frame

    from . import _wire

    reg, types = _wire.draw_registry(v)
    kind = v.choose("kind", ["data", "event", "message"])
    crc = v.choose("crc", [True, False])
    src = v.choose("source", ["framer", "table"])
    event = kind == "event"
    if kind == "message":
        fields = (v.int("type", 0, 5), v.int("number", 0, 65535), v.int("mcrc", 0, 2 ** 32 - 1),
                  v.int("index", 0, 65535), v.int("total", 0, 65535))
        frag = v.bytes("fragment", n=v.choose("len", [0, 1, 5, 40, 300]))
        app, stamp = v.int("app", 0, 65535), v.int("stamp", 0, 2 ** 64 - 1)
        blob = _wire.message_frame(app, stamp, fields, frag, crc)
    else:
        elems = draw_elems(v, types, event)
        if src == "table" or not elems:
            app, stamp = v.int("app", 0, 65535), v.int("stamp", 0, 2 ** 64 - 1)
            blob = (_wire.event_frame if event else _wire.data_frame)(app, stamp, elems, crc)
        else:
            framer = ChannelFramer(2000, reg, [], OptionalRLock(False), v.choose("basis", [0.5, 0.0, 1.0, 123.0]), crc)
            app, stamp = framer.primitives["app_id"].get(), 1500
            frame = framer.new_event_frame(1.5) if event else framer.new_data_frame(1.5)
            for e in elems:
                if event:
                    ok = frame.add_event(e[0], e[1], (e[2][0], e[2][1] // 1000), (e[3][0], e[3][1] // 1000))
                else:
                    ok = frame.add(*e)
                v.check("element fits", ok)
            if event:
                elems = [(e[0], e[1]) + tuple((p[0], p[1] // 1000 * 1000) for p in e[2:]) for e in elems]
            frame.finalize()
            blob = bytes(frame.raw[0])[:frame.raw[1]]
    exp = None
    if v.choose("expect", [True, False]):
        exp = new_default("id")
        exp.data = app
    res = decode_frame(reg, blob, len(blob), exp)
    v.check("a well-formed frame is decoded", res is not None)
    v.check("application id and time", res.header.app_id == app and res.header.timestamp == stamp)
    if crc:
        v.check("checksum is the transmitted one", res.footer.crc == int.from_bytes(blob[-4:], "big"))
    if kind == "message":
        v.check("fields", tuple(res.body[k] for k, _ in FIELDS) == fields)
        v.check("fragment", res.body["fragment_bytes"] == frag)
    else:
        check_elems(v, res, elems, event, reg)


@search("C07")
def hostile(v):
    """Arbitrary and damaged byte strings are rejected, never fatal."""
    from vtelem.classes.type_primitive import new_default
    from vtelem.parsing.encapsulation import decode_frame

    from . import _wire

    reg, types = _wire.draw_registry(v, streams=True)
    app = v.int("app", 0, 65535)
    crc = v.choose("crc", [True, True, False])
    kind = v.choose("kind", ["data", "event", "message", "stream", "noise"])
    exp = None
    if v.choose("expect", [True, False]):
        exp = new_default("id")
        exp.data = v.choose("which", [app, app, (app + 1) % 65536])
    event = kind == "event"
    unknown = False
    if kind in ("data", "event"):
        elems = draw_elems(v, types, event)
        if elems and v.choose("unknown id", [False, False, True]):
            unknown = True
            i = v.index("which elem", len(elems))
            bad = v.choose("bad", [65535, max(types) + 1])
            elems[i] = (bad,) + tuple(elems[i][1:])
        blob = (_wire.event_frame if event else _wire.data_frame)(app, 77, elems, crc)
    elif kind == "message":
        frag = v.bytes("fragment")
        blob = _wire.message_frame(app, 77, (1, 2, 3, 0, 1), frag, crc)
    elif kind == "stream":
        cid = v.choose("cid", sorted(types) + [0, 65535])
        dat = v.bytes("dat")
        blob = _wire.with_crc(_wire.header(app, 4, 77, len(dat)) + cid.to_bytes(2, "big") + bytes(4) + dat, crc)
    else:
        blob = v.bytes("noise", n=v.choose("len", [0, 1, 2, 3, 10, 14, 15, 16, 19, 25, 40]))
    orig = blob
    how = v.choose("damage", ["none", "flip", "cut", "type", "count", "extend"])
    if blob and how == "flip":
        i = v.index("at", len(blob))
        blob = blob[:i] + bytes([blob[i] ^ (1 << v.index("bit", 8))]) + blob[i + 1:]
    elif blob and how == "cut":
        blob = blob[:v.index("keep", len(blob))]
    elif how == "type" and len(blob) > 2:
        blob = blob[:2] + bytes([v.int("kind2", 0, 255)]) + blob[3:]
    elif how == "count" and len(blob) > 15:
        blob = blob[:11] + v.choose("n", [1, 2, 3, 100, 65536, 2 ** 20]).to_bytes(4, "big") + blob[15:]
    elif how == "extend":
        blob = blob + v.bytes("extra")
    ids0 = list(types)
    got = v.outcome(lambda: decode_frame(reg, blob, len(blob), exp))
    v.check("decoding never raises", got[0] == "ok")
    v.check("the registry is left alone", ids0 == list(reg.data[reg.type_name]))
    res = got[1]
    if res is None:
        return
    v.check("no frame from less than a header", len(blob) >= HDR)
    v.check("a decoded frame is an expected one", exp is None or exp.data == int.from_bytes(blob[:2], "big"))
    if unknown and how == "none":
        v.check("unregistered channels are rejected", False)
    for elem in res.body.get("channels", []) + res.body.get("events", []):
        v.check("its channel is registered", elem["channel"] is not None and elem["channel"] is reg.get_item(elem["id"]))
    if crc and how == "flip" and kind in ("data", "event", "message") and len(blob) == len(orig) \
            and blob[11:15] == orig[11:15] and blob[2] == orig[2] and not unknown and kind == "message":
        v.check("a damaged frame is not accepted", False)
    if res.footer.crc is not None:
        import zlib

        v.check("checksum matches every byte before it",
                any(zlib.crc32(blob[:k]) == res.footer.crc == int.from_bytes(blob[k:k + 4], "big")
                    for k in range(len(blob) - 3)))
