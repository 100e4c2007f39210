"""An independent, concrete description of the wire format (test oracle)."""
import math
import struct
import zlib

from ._common import CODES, bounds, primitives, wire

KINDS = {"invalid": 0, "data": 1, "event": 2, "message": 3, "stream": 4}


def pack(prim, val):
    return struct.pack(">" + CODES[prim.name], val)


def unpack(prim, data):
    return struct.unpack(">" + CODES[prim.name], data)[0]


def millis(time):
    frac, num = math.modf(time)
    return int(num) * 1000 + math.floor(frac * 1000)


def header(app, kind, stamp, count):
    return struct.pack(">HBQI", app, KINDS[kind] if isinstance(kind, str) else kind, stamp, count)


def split(blob):
    """Frame -> (app, kind, stamp, count, rest)"""
    app, kind, stamp, count = struct.unpack(">HBQI", blob[:15])
    return app, kind, stamp, count, blob[15:]


def with_crc(blob, crc):
    return blob + struct.pack(">I", zlib.crc32(blob)) if crc else blob


def data_frame(app, stamp, elems, crc):
    """elems: [(id, prim, value)]"""
    out = header(app, "data", stamp, len(elems))
    out += b"".join(struct.pack(">H", e[0]) for e in elems)
    out += b"".join(pack(e[1], e[2]) for e in elems)
    return with_crc(out, crc)


def event_frame(app, stamp, elems, crc):
    """elems: [(id, prim, (v0, t0), (v1, t1))], times in milliseconds"""
    out = header(app, "event", stamp, len(elems))
    out += b"".join(struct.pack(">H", e[0]) for e in elems)
    for _, prim, (v0, t0), (v1, t1) in elems:
        out += pack(prim, v0) + struct.pack(">Q", t0) + pack(prim, v1) + struct.pack(">Q", t1)
    return with_crc(out, crc)


def message_frame(app, stamp, fields, fragment, crc):
    """fields: (type, number, crc, index, total)"""
    out = header(app, "message", stamp, len(fragment)) + struct.pack(">BHIHH", *fields) + fragment
    return with_crc(out, crc)


def read_data(blob, types, crc):
    """Data frame -> (app, stamp, [(id, value)]); asserts well-formedness."""
    app, kind, stamp, count, rest = split(blob)
    assert kind == KINDS["data"], "not a data frame"
    ids = struct.unpack(">%dH" % count, rest[:2 * count])
    at, out = 2 * count, []
    for cid in ids:
        size = wire(types[cid])[1]
        out.append((cid, unpack(types[cid], rest[at:at + size])))
        at += size
    assert len(rest) == at + (4 if crc else 0), "frame length"
    return app, stamp, out


def read_event(blob, types, crc):
    app, kind, stamp, count, rest = split(blob)
    assert kind == KINDS["event"], "not an event frame"
    ids = struct.unpack(">%dH" % count, rest[:2 * count])
    at, out = 2 * count, []
    for cid in ids:
        size = wire(types[cid])[1]
        item = [cid]
        for _ in range(2):
            item.append((unpack(types[cid], rest[at:at + size]),
                         struct.unpack(">Q", rest[at + size:at + size + 8])[0]))
            at += size + 8
        out.append(tuple(item))
    assert len(rest) == at + (4 if crc else 0), "frame length"
    return app, stamp, out


def good_crc(blob):
    return struct.unpack(">I", blob[-4:])[0] == zlib.crc32(bytes(blob[:-4]))


def draw_value(v, prim, name="val"):
    """A value that survives the wire unchanged."""
    kind = wire(prim)[0]
    if kind == "bool":
        return v.bool(name)
    if kind == "int":
        return v.int(name, *bounds(prim))
    val = v.real(name, -1e38, 1e38) if prim.name == "FLOAT" else v.real(name)
    return unpack(prim, pack(prim, val))


def draw_registry(v, most=5, streams=False):
    """A channel registry and {id: type} of its channels."""
    from vtelem.channel import Channel
    from vtelem.channel.registry import ChannelRegistry

    reg, types = ChannelRegistry(), {}
    for j in range(v.int("channels", 0, most)):
        prim = v.choose("type", primitives())
        chan = Channel("c%d" % j, prim, 1.0)
        if streams and v.choose("stream", [False, False, True]):
            chan.is_stream = True
        ok, cid = reg.add_channel(chan)
        assert ok
        types[cid] = prim
    return reg, types
