"""C03: wire codec of primitives.  C04: byte buffer integrity."""
import struct

from pyvc.api import search, unit

from ._common import (
    CODES, any_prim, as_num, kind_of, primitives, type_primitive, value_of, wire,
)

PRIM_FUNCS = [
    "vtelem.classes.type_primitive:TypePrimitive.write",
    "vtelem.classes.type_primitive:TypePrimitive.read",
    "vtelem.classes.type_primitive:TypePrimitive.buffer",
    "vtelem.classes.type_primitive:TypePrimitive.size",
]
BUF_FUNCS = ["vtelem.classes.byte_buffer:ByteBuffer." + n for n in (
    "write", "read", "read_bytes", "append", "advance", "set_pos", "expand_to",
    "with_pos", "reset", "can_read", "remaining", "fstring", "crc32")]


def enc(v, prim, val, order=">"):
    """The network encoding of a value (independent format table)."""
    fmt = order + CODES[prim.name]
    if v.symbolic:
        from pyvc import models

        return models.m_pack(fmt, val)
    return struct.pack(fmt, val)


def dec(v, prim, data, order=">"):
    fmt = order + CODES[prim.name]
    if v.symbolic:
        from pyvc import models

        return models.m_unpack(fmt, data)[0]
    return struct.unpack(fmt, data)[0]


def dec_at(v, prim, data, at, order=">"):
    """The value encoded at an offset (total: no bounds involved)."""
    if v.symbolic:
        from pyvc import models
        from pyvc.sym import lift_bytes, zint

        return models.unpack_at(order == ">", CODES[prim.name], lift_bytes(data), zint(at))[0]
    return dec(v, prim, data[at:at + wire(prim)[1]], order)


def f32(v, prim, val):
    """What survives the wire: single precision for FLOAT."""
    if prim.name != "FLOAT":
        return val
    return dec(v, prim, enc(v, prim, val))


def buffer(v, name="buf", mutable=True, kind="bytearray", order="!"):
    """An arbitrary buffer: any content, size and position inside it."""
    from vtelem.classes.byte_buffer import ByteBuffer

    data = v.bytes(name, kind)
    n = v.call(len, data)
    buf = ByteBuffer(data, mutable, 0, order)
    buf.size = v.int(name + ".size", 0, n)
    buf.pos = v.int(name + ".pos", 0, n)
    return buf


def snap(v, buf):
    return (v.call(bytes, buf.data), buf.size, buf.pos)


def untouched(v, name, old, new, i, lo, hi):
    """Byte i of the old content is unchanged outside [lo, hi)."""
    v.check(name, v.Implies(v.Or(i < lo, i >= hi), v.byte(new, i) == v.byte(old, i)))


@unit("C03/write", props="C03", funcs=PRIM_FUNCS + BUF_FUNCS)
def u_write(v):
    prim = any_prim(v)
    buf = buffer(v)
    obj = type_primitive(v, prim)
    old, size0, pos0 = snap(v, buf)
    n0 = v.call(len, old)
    size = wire(prim)[1]
    res = obj.write(buf)
    v.check("write reports the type's size", res == size)
    v.check("cursor advances by the size", buf.pos == pos0 + size)
    v.check("used size covers what was written", buf.size == v.Ite(pos0 + size > size0, pos0 + size, size0))
    v.check("bytes are the network encoding", v.same(buf.data[pos0:pos0 + size], enc(v, prim, obj.data)))
    v.check("buffer grows only as needed",
            v.call(len, buf.data) == v.Ite(pos0 + size > n0, pos0 + size, n0))
    i = v.index("i", n0)
    untouched(v, "other bytes unchanged", old, buf.data, i, pos0, pos0 + size)


@unit("C03/write_at", props="C03", funcs=PRIM_FUNCS + BUF_FUNCS)
def u_write_at(v):
    prim = any_prim(v)
    buf = buffer(v)
    obj = type_primitive(v, prim)
    old, size0, pos0 = snap(v, buf)
    n0 = v.call(len, old)
    size = wire(prim)[1]
    at = v.int("at", 0, n0)
    res = obj.write(buf, at)
    v.check("write reports the type's size", res == size)
    v.check("cursor is restored", buf.pos == pos0)
    v.check("bytes are the network encoding", v.same(buf.data[at:at + size], enc(v, prim, obj.data)))
    i = v.index("i", n0)
    untouched(v, "other bytes unchanged", old, buf.data, i, at, at + size)


@unit("C03/roundtrip", props="C03", funcs=PRIM_FUNCS + BUF_FUNCS)
def u_roundtrip(v):
    """write then read at the same place gives the value back."""
    from vtelem.classes.type_primitive import TypePrimitive

    prim = any_prim(v)
    buf = buffer(v)
    obj = type_primitive(v, prim)
    pos0 = buf.pos
    obj.write(buf)
    buf.set_pos(pos0)
    other = TypePrimitive(prim)
    got = other.read(buf)
    want = f32(v, prim, obj.data)
    v.check("value read back equals the value written", as_num(v, got) == as_num(v, want))
    v.check("value read back has the type", kind_of(got) == wire(prim)[0])
    v.check("reader holds the value", as_num(v, other.data) == as_num(v, want))
    v.check("cursor after both", buf.pos == pos0 + wire(prim)[1])


@unit("C03/read", props="C03", funcs=PRIM_FUNCS + BUF_FUNCS)
def u_read(v):
    """read decodes exactly the bytes at the cursor."""
    prim = any_prim(v)
    buf = buffer(v, kind=v.choose("kind", ["bytearray", "bytes"]), mutable=v.choose("mutable", [True, False]))
    obj = type_primitive(v, prim)
    size = wire(prim)[1]
    at = None
    if v.choose("explicit", [False, True]):
        at = v.int("at", 0, buf.size)
    old, size0, pos0 = snap(v, buf)
    start = pos0 if at is None else at
    v.assume(start + size <= size0)
    got = obj.read(buf, at)
    v.check("value decodes the bytes at the position",
            v.same(got, dec(v, prim, old[start:start + size])))
    v.check("cursor", buf.pos == (pos0 + size if at is None else pos0))
    v.check("size unchanged", buf.size == size0)
    v.check("content unchanged", v.same(buf.data, old))


@unit("C03/refuse", props="C03", funcs=PRIM_FUNCS + BUF_FUNCS)
def u_refuse(v):
    """A read past the used size is refused and changes nothing."""
    prim = any_prim(v)
    buf = buffer(v)
    obj = type_primitive(v, prim)
    size = wire(prim)[1]
    old, size0, pos0 = snap(v, buf)
    before = obj.data
    v.assume(v.And(pos0 <= size0, pos0 + size > size0))
    v.check("can_read is false", v.Not(buf.can_read(prim)))
    v.check("read is refused", v.fails(lambda: obj.read(buf)))
    v.check("cursor unchanged", buf.pos == pos0)
    v.check("content unchanged", v.same(buf.data, old))
    v.check("value unchanged", v.same(obj.data, before))


@unit("C03/buffer", props="C03", funcs=PRIM_FUNCS)
def u_buffer(v):
    prim = any_prim(v)
    obj = type_primitive(v, prim)
    v.check("stand-alone encoding is the network encoding", v.same(obj.buffer(), enc(v, prim, obj.data)))
    v.check("size() is the wire size", obj.size() == wire(prim)[1])
    v.check("little-endian on request", v.same(obj.buffer("<"), enc(v, prim, obj.data, "<")))


# ------------------------------------------------------------------ C04 -----
@unit("C04/append", props="C04", funcs=BUF_FUNCS)
def u_append(v):
    buf = buffer(v)
    other = v.bytes("other", v.choose("kind", ["bytes", "bytearray"]))
    n1 = v.call(len, other)
    k = None
    if v.choose("explicit_len", [False, True]):
        k = v.int("data_len", 0, n1)
    old, size0, pos0 = snap(v, buf)
    v.assume(pos0 <= size0)
    cnt = n1 if k is None else k
    res = buf.append(other, k)
    v.check("append reports the count", res == cnt)
    v.check("size grows by the count", buf.size == size0 + cnt)
    v.check("no used byte is lost", v.same(buf.data[0:size0], old[0:size0]))
    v.check("appended bytes follow", v.same(buf.data[size0:size0 + cnt], other[0:cnt]))
    v.check("nothing beyond the used size", v.call(len, buf.data) == size0 + cnt)
    v.check("cursor stays, or follows at the end",
            buf.pos == v.Ite(v.And(pos0 == size0, size0 != 0), size0 + cnt, pos0))


@unit("C04/read_bytes", props="C04", funcs=BUF_FUNCS)
def u_read_bytes(v):
    buf = buffer(v)
    old, size0, pos0 = snap(v, buf)
    v.assume(pos0 <= size0)
    count = v.int("count", 0, cmax=60)
    chomp = v.choose("chomp", [False, True])
    if chomp:
        v.assume(pos0 == 0)
    got = v.outcome(lambda: buf.read_bytes(count, chomp))
    if pos0 + count > size0:
        v.check("over-read is refused", got[0] == "raise")
        v.check("refused read leaves the cursor", buf.pos == pos0)
        v.check("refused read leaves the size", buf.size == size0)
        v.check("refused read leaves the content", v.same(buf.data, old))
        return
    v.check("read succeeds", got[0] == "ok")
    if got[0] != "ok":
        return
    v.check("returned bytes are those at the cursor", v.same(got[1], old[pos0:pos0 + count]))
    if not chomp:
        v.check("cursor advances", buf.pos == pos0 + count)
        v.check("size unchanged", buf.size == size0)
        v.check("content unchanged", v.same(buf.data, old))
    else:
        v.check("consumed: cursor at the front", buf.pos == 0)
        v.check("consumed: size shrinks", buf.size == size0 - count)
        v.check("consumed: the rest follows", v.same(buf.data[0:size0 - count], old[count:size0]))


@unit("C04/with_pos", props="C04", funcs=BUF_FUNCS)
def u_with_pos(v):
    """The cursor comes back whatever happens inside."""
    buf = buffer(v)
    pos0 = buf.pos
    at = v.int("at", 0, v.call(len, buf.data))
    boom = v.choose("raise", [False, True])
    move = v.int("move", 0, cmax=200)

    def body():
        with buf.with_pos(at):
            v.check("cursor is at the requested position", buf.pos == at)
            buf.set_pos(move)
            if boom:
                raise ValueError("inside")

    got = v.outcome(body)
    v.check("exception passes through", (got[0] == "raise") == boom)
    v.check("cursor restored", buf.pos == pos0)


@unit("C04/immutable", props="C04", funcs=BUF_FUNCS)
def u_immutable(v):
    prim = any_prim(v)
    buf = buffer(v, mutable=False)
    old, size0, pos0 = snap(v, buf)
    res = buf.write(prim, value_of(v, prim))
    v.check("nothing written", res == 0)
    v.check("content unchanged", v.same(buf.data, old))
    v.check("cursor and size unchanged", v.And(buf.pos == pos0, buf.size == size0))
    v.check("reset refused", v.fails(buf.reset))
    v.check("content still unchanged", v.same(buf.data, old))


@unit("C04/crc", props="C04", funcs=BUF_FUNCS + ["vtelem.classes.byte_buffer:crc"])
def u_crc(v):
    """The checksum is that of exactly the used bytes."""
    import zlib

    buf = buffer(v)
    want = v.call(zlib.crc32, buf.data[0:buf.size])
    got = buf.crc32()
    v.check("checksum of the used bytes", got == want)


@unit("C04/reset", props="C04", funcs=BUF_FUNCS)
def u_reset(v):
    buf = buffer(v)
    buf.reset()
    v.check("empty after reset", v.And(buf.size == 0, buf.pos == 0, v.call(len, buf.data) == 0))


# ------------------------------------------------------- concrete oracles
def exercise(v, orders):
    """Histories of operations on several buffers against plain byte strings."""
    import zlib

    from vtelem.classes.byte_buffer import ByteBuffer
    from vtelem.classes.type_primitive import TypePrimitive

    from ._wire import draw_value

    bufs = []
    for _ in range(v.choose("buffers", [1, 2, 3])):
        order = v.choose("order", orders)
        start = v.choose("start", ["none", "capacity", "filled"])
        if start == "none":
            bufs.append([ByteBuffer(order=order), b"", 0, order])
        elif start == "capacity":
            bufs.append([ByteBuffer(bytearray(v.choose("cap", [1, 4, 64])), order=order), b"", 0, order])
        else:
            data = v.bytes("init")
            bufs.append([ByteBuffer(bytearray(data), True, len(data), order), data, 0, order])
    for _ in range(v.choose("steps", [2, 6, 20])):
        rec = bufs[v.index("which", len(bufs))]
        buf, val, pos, order = rec
        op = v.choose("op", ["write", "write", "write_at", "prim", "read", "chomp", "bytes", "append", "seek", "crc", "at"])
        prim = v.choose("type", primitives())
        size = wire(prim)[1]
        code = (">" if order == "!" else order) + CODES[prim.name]
        if op in ("write", "prim", "write_at"):
            x = draw_value(v, prim)
            one = struct.pack(code, x)
            at = v.int("at", 0, len(val)) if op == "write_at" else pos
            if op == "write":
                n = buf.write(prim, x)
            else:
                tp = TypePrimitive(prim)
                v.check("value accepted", tp.set(x))
                n = tp.write(buf, at) if op == "write_at" else tp.write(buf)
            v.check("a write is as long as its type", n == size)
            rec[1] = val[:at] + one + val[at + size:]
            if op != "write_at":
                rec[2] = pos + size
        elif op in ("read", "chomp", "bytes", "at"):
            at = v.int("at", 0, len(val)) if op == "at" else pos
            if op == "chomp" and pos != 0:
                continue
            n = v.int("n", 0, 9) if op == "bytes" else size
            tp = TypePrimitive(prim)

            def fetch(how=op, prim=prim, n=n, at=at, tp=tp, buf=buf):
                if how == "bytes":
                    return bytes(buf.read_bytes(n))
                if how == "at":
                    return tp.read(buf, at)
                return buf.read(prim, how == "chomp")

            if len(val) - at < n:
                v.check("a read past the end is refused", v.fails(fetch, AssertionError))
            else:
                got = fetch()
                raw = val[at:at + n]
                want = raw if op == "bytes" else struct.unpack(code, raw)[0]
                v.check("what was written is read", got == want or got != got and want != want)
                if op == "chomp":
                    rec[1] = val[n:]
                elif op != "at":
                    rec[2] = pos + n
        elif op == "append":
            more = v.bytes("more")
            v.check("append tells its length", buf.append(more) == len(more))
            rec[1] = val + more
            if pos == len(val) and val:
                rec[2] = pos + len(more)
        elif op == "seek":
            rec[2] = v.int("to", 0, len(val))
            buf.set_pos(rec[2])
        else:
            v.check("checksum of the valid bytes", buf.crc32() == zlib.crc32(val))
        for b, want, at, _ in bufs:
            v.check("exactly these bytes are valid", bytes(b.data[:b.size]) == want and b.size == len(want))
            v.check("position", b.get_pos() == at and b.remaining == len(want) - at)


@search("C03")
def codec(v):
    exercise(v, ["!", "!", "<", ">"])


@search("C04")
def buffers(v):
    exercise(v, ["!"])
