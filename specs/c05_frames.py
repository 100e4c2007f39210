"""C05: frames stay inside the MTU, with exact accounting and frozen contents."""
from pyvc.api import unit

from ._common import any_prim, type_primitive, value_of, wire
from .c03_codec import enc, f32, snap

HDR = 2 + 1 + 8 + 4
CRC = 4
FRAME_FUNCS = ["vtelem.frame:Frame." + n for n in (
    "__init__", "write", "space", "increment_count", "pad", "pad_to_mtu", "raw",
    "with_size_header", "finalize")] + [
    "vtelem.frame.channel:ChannelFrame." + n for n in ("__init__", "finalize_hook", "add", "add_event")]


def prim_of(v, alias, name, lo=None):
    from vtelem.classes import DEFAULTS

    return type_primitive(v, DEFAULTS[alias], name)


def new_frame(v, kind="channel", name="frame", mtu=None):
    """A frame made by the real constructor, with its header values."""
    from vtelem.frame.channel import ChannelFrame
    from vtelem.frame.message import MessageFrame

    if mtu is None:
        mtu = v.int(name + ".mtu", HDR + CRC + 1, 65535, cmax=400)
    head = {"id": prim_of(v, "id", name + ".id"), "type": prim_of(v, "enum", name + ".type"),
            "time": prim_of(v, "timestamp", name + ".time")}
    use_crc = v.choose(name + ".crc", [True, False])
    cls = ChannelFrame if kind == "channel" else MessageFrame
    frame = cls(mtu, head["id"], head["type"], head["time"], use_crc)
    return frame, head, use_crc


def header_bytes(v, head, count):
    from vtelem.classes import DEFAULTS

    return (enc(v, DEFAULTS["id"], head["id"].data) + enc(v, DEFAULTS["enum"], head["type"].data)
            + enc(v, DEFAULTS["timestamp"], head["time"].data) + enc(v, DEFAULTS["count"], count))


def filled_frame(v, name="frame"):
    """A channel frame after any number of accepted elements.

    Class invariant: header, then the ids, in ``buffer``; the element data in
    ``elem_buffer``; ``used`` counts header, checksum, ids and element bytes;
    ``used`` never exceeds the MTU.
    """
    frame, head, use_crc = new_frame(v, "channel", name)
    k = v.int(name + ".count", 0, cmax=20)
    ids = v.int(name + ".idbytes", 0, cmax=60)
    elems = v.int(name + ".elems", 0, cmax=300)
    over = HDR + (CRC if use_crc else 0)
    v.assume(ids == 2 * k)
    v.assume(over + ids + elems <= frame.mtu)
    body = v.bytes(name + ".ids", "bytearray", n=frame.mtu)
    frame.buffer.data = v.patch(body, 0, header_bytes(v, head, 0))
    frame.buffer.pos = HDR + ids
    frame.buffer.size = HDR + ids
    frame.elem_buffer.data = v.bytes(name + ".elemdata", "bytearray", n=frame.mtu)
    frame.elem_buffer.pos = elems
    frame.elem_buffer.size = elems
    frame.used = over + ids + elems
    frame.count["value"] = k
    return frame, head, use_crc, k, ids, elems


def state(v, frame):
    return (snap(v, frame.buffer), snap(v, frame.elem_buffer), frame.used, frame.count["value"],
            frame.finalized, frame.initialized)


def check_same_state(v, what, frame, old):
    new = state(v, frame)
    v.check(what + ": contents unchanged", v.And(v.same(new[0][0], old[0][0]), v.same(new[1][0], old[1][0])))
    v.check(what + ": accounting unchanged",
            v.And(*[v.same(a, b) for a, b in zip(new[0][1:] + new[1][1:] + new[2:],
                                                 old[0][1:] + old[1][1:] + old[2:])]))


def check_invariant(v, frame, head, use_crc, k, ids, elems):
    over = HDR + (CRC if use_crc else 0)
    v.check("used space is exact", frame.used == over + ids + elems)
    v.check("never more than the MTU", frame.used <= frame.mtu)
    v.check("space is what is left", frame.space == frame.mtu - frame.used)
    v.check("count is the number of accepted elements", frame.count["value"] == k)
    v.check("header and ids contiguous", v.And(frame.buffer.pos == HDR + ids, frame.buffer.size == HDR + ids))
    v.check("element bytes contiguous", v.And(frame.elem_buffer.size == elems, frame.elem_buffer.pos == elems))


@unit("C05/new", props="C05", funcs=FRAME_FUNCS)
def u_new(v):
    mtu = v.int("mtu", 0, 70000, cmax=64)
    kind = v.choose("kind", ["channel", "message"])
    got = v.outcome(lambda: new_frame(v, kind, "frame", mtu))
    if got[0] == "raise":
        v.check("refused only when nothing would fit", mtu <= HDR + CRC)
        return
    frame, head, use_crc = got[1]
    over = HDR + (CRC if use_crc else 0)
    v.check("an empty frame accounts for header and checksum", v.And(frame.used == over, frame.overhead == over))
    v.check("there is room in a new frame", frame.used < frame.mtu)
    v.check("header is id, type, timestamp and a blank count",
            v.same(frame.buffer.data[0:HDR], header_bytes(v, head, 0)))
    v.check("position is after the header", v.And(frame.buffer.pos == HDR, frame.buffer.size == HDR))
    v.check("no elements yet", v.And(frame.count["value"] == 0, v.Not(frame.finalized)))
    if kind == "channel":
        check_invariant(v, frame, head, use_crc, 0, 0, 0)


@unit("C05/add", props=["C05", "C06", "C09"], funcs=FRAME_FUNCS)
def u_add(v):
    """From any reachable frame, adding an element is all or nothing."""
    frame, head, use_crc, k, ids, elems = filled_frame(v)
    prim = any_prim(v)
    cid = v.int("id", 0, 65535)
    val = value_of(v, prim)
    size = wire(prim)[1]
    fits = frame.used + 2 + size <= frame.mtu
    old = state(v, frame)
    res = frame.add(cid, prim, val)
    v.check("accepted exactly when it fits", v.Iff(res, fits))
    if not res:
        check_same_state(v, "refused element", frame, old)
        return
    check_invariant(v, frame, head, use_crc, k + 1, ids + 2, elems + size)
    from vtelem.classes import DEFAULTS

    v.check("id appended", v.same(frame.buffer.data[HDR + ids:HDR + ids + 2], enc(v, DEFAULTS["id"], cid)))
    v.check("value appended", v.same(frame.elem_buffer.data[elems:elems + size], enc(v, prim, val)))
    v.check("earlier ids untouched", v.same(frame.buffer.data[0:HDR + ids], old[0][0][0:HDR + ids]))
    v.check("earlier values untouched", v.same(frame.elem_buffer.data[0:elems], old[1][0][0:elems]))


@unit("C05/add_event", props=["C05", "C06", "C10"], funcs=FRAME_FUNCS, weight=3)
def u_add_event(v):
    from vtelem.classes import DEFAULTS
    from vtelem.frame import time_to_int

    frame, head, use_crc, k, ids, elems = filled_frame(v)
    prim = any_prim(v)
    cid = v.int("id", 0, 65535)
    prev, curr = value_of(v, prim, "prev"), value_of(v, prim, "curr")
    t0, t1 = v.real("prev_time", 0, 10 ** 12), v.real("curr_time", 0, 10 ** 12)
    size = wire(prim)[1]
    need = 2 + 2 * size + 16
    fits = frame.used + need <= frame.mtu
    old = state(v, frame)
    res = frame.add_event(cid, prim, (prev, t0), (curr, t1))
    v.check("accepted exactly when it fits", v.Iff(res, fits))
    if not res:
        check_same_state(v, "refused event", frame, old)
        return
    check_invariant(v, frame, head, use_crc, k + 1, ids + 2, elems + need - 2)
    stamp = DEFAULTS["timestamp"]
    want = (enc(v, prim, prev) + enc(v, stamp, time_to_int(t0)) + enc(v, prim, curr)
            + enc(v, stamp, time_to_int(t1)))
    v.check("id appended", v.same(frame.buffer.data[HDR + ids:HDR + ids + 2], enc(v, DEFAULTS["id"], cid)))
    got = frame.elem_buffer.data
    at = elems
    for what, a, b in (("previous value", 0, size), ("previous time", size, size + 8),
                       ("new value", size + 8, 2 * size + 8), ("new time", 2 * size + 8, 2 * size + 16)):
        v.check(what + " appended", v.same(got[at + a:at + b], want[a:b]))
    v.check("earlier ids untouched", v.same(frame.buffer.data[0:HDR + ids], old[0][0][0:HDR + ids]))
    v.check("earlier values untouched", v.same(got[0:elems], old[1][0][0:elems]))


@unit("C05/finalize", props=["C05", "C06", "C09", "C10"], funcs=FRAME_FUNCS)
def u_finalize(v):
    import zlib

    frame, head, use_crc, k, ids, elems = filled_frame(v)
    good = v.choose("write_crc", [True, False])
    old = state(v, frame)
    res = frame.finalize(good)
    total = HDR + ids + elems + (CRC if use_crc else 0)
    data, size = frame.raw
    v.check("finalize reports the frame's size", v.And(res == total, size == total))
    v.check("never more than the MTU", size <= frame.mtu)
    v.check("data is exactly the frame", v.call(len, data) == total)
    v.check("header with the final count", v.same(data[0:HDR], header_bytes(v, head, k)))
    v.check("ids follow the header", v.same(data[HDR:HDR + ids], old[0][0][HDR:HDR + ids]))
    v.check("values follow the ids", v.same(data[HDR + ids:HDR + ids + elems], old[1][0][0:elems]))
    if use_crc and good:
        from vtelem.classes import DEFAULTS

        body = data[0:HDR + ids + elems]
        v.check("checksum of everything before it",
                v.same(data[HDR + ids + elems:total], enc(v, DEFAULTS["crc"], v.call(zlib.crc32, body))))


@unit("C05/frozen", props=["C05", "C06"], funcs=FRAME_FUNCS, weight=2)
def u_frozen(v):
    """A finalized frame never changes again."""
    frame, head, use_crc, k, ids, elems = filled_frame(v)
    good = v.choose("write_crc", [True, False])
    total = frame.finalize(good)
    after = state(v, frame)
    what = v.choose("then", ["finalize", "add", "event"])
    if what == "finalize":
        v.check("finalizing again changes nothing (size)", frame.finalize(v.choose("again_crc", [True, False])) == total)
    elif what == "add":
        prim = any_prim(v)
        v.check("a finalized frame takes no element",
                v.Not(frame.add(v.int("id", 0, 65535), prim, value_of(v, prim))))
    else:
        prim = any_prim(v)
        v.check("a finalized frame takes no event",
                v.Not(frame.add_event(1, prim, (value_of(v, prim, "p"), 0.0), (value_of(v, prim, "c"), 1.0))))
    check_same_state(v, what + " after finalize", frame, after)


@unit("C05/unfinished", props="C05", funcs=FRAME_FUNCS)
def u_unfinished(v):
    frame, _, _, _, _, _ = filled_frame(v)
    v.check("raw data needs a finalized frame", v.fails(lambda: frame.raw, AssertionError))
    v.check("padding needs a finalized frame", v.fails(lambda: frame.pad(1), AssertionError))


@unit("C05/pad", props="C05", funcs=FRAME_FUNCS)
def u_pad(v):
    frame, head, use_crc, k, ids, elems = filled_frame(v)
    size = frame.finalize()
    before = v.call(bytes, frame.raw[0])
    want = v.int("amount", 0, cmax=500)
    if v.choose("to_mtu", [True, False]):
        frame.pad_to_mtu()
        got = frame.mtu - size
    else:
        got = frame.pad(want)
        room = frame.mtu - size
        v.check("pads what was asked, up to the MTU", got == v.Ite(want < room, want, room))
    data, used = frame.raw
    v.check("size includes the padding", used == size + got)
    v.check("never more than the MTU", used <= frame.mtu)
    v.check("the data is the size announced", v.call(len, data) == used)
    v.check("frame content untouched", v.same(data[0:size], before))
    i = v.index("i", got)
    v.check("padding is zero bytes", v.byte(data, size + i) == 0)


@unit("C05/size_header", props=["C05", "C08"], funcs=FRAME_FUNCS)
def u_size_header(v):
    from vtelem.classes import DEFAULTS

    frame, head, use_crc, k, ids, elems = filled_frame(v)
    size = frame.finalize()
    raw = frame.raw[0]
    data, total = frame.with_size_header()
    v.check("total is header plus frame", total == size + 4)
    v.check("length prefix is the frame size", v.same(data[0:4], enc(v, DEFAULTS["count"], size)))
    v.check("frame follows the prefix", v.same(data[4:total], raw))
    v.check("nothing else", v.call(len, data) == total)
