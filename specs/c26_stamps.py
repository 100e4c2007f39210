"""C26: time stamps and application identifiers are always encodable."""
from fractions import Fraction

from pyvc.api import search, unit

from ._common import wire
from .c03_codec import enc

FUNCS = ["vtelem.frame:time_to_int", "vtelem.frame.framer:basis_to_int", "vtelem.frame.framer:Framer.create_app_id",
         "vtelem.enums.primitive:random_integer", "vtelem.classes.type_primitive:TypePrimitive.set"]
STAMP_MAX = 2 ** 64 - 1
LIMIT = 2 ** 64 // 1000


def prim_of(name):
    from vtelem.enums.primitive import Primitive

    return Primitive[name]


def exact_time(v, name, hi=LIMIT - 1):
    """Any time; concrete runs use times a float computes with exactly."""
    if v.symbolic:
        return v.real(name, 0, hi)
    val = v.real(name, 0, min(hi, 2 ** 30))
    return float(Fraction(round(val * 2 ** 20), 2 ** 20))


@unit("C26/milliseconds", props="C26", funcs=FUNCS[:1])
def u_ms(v):
    from vtelem.frame import time_to_int

    t = exact_time(v, "time")
    got = time_to_int(t)
    v.check("not after the time", got <= t * 1000)
    v.check("no later whole millisecond fits", t * 1000 < got + 1)
    v.check("non-negative", got >= 0)
    v.check("fits the field", got <= STAMP_MAX)
    later = exact_time(v, "later")
    if later >= t:
        v.check("order is preserved", time_to_int(later) >= got)


@unit("C26/precision", props="C26", funcs=FUNCS[:1])
def u_precision(v):
    from vtelem.frame import time_to_int

    precision = v.choose("precision", [1, 10, 1000, 1000000])
    t = exact_time(v, "time", 2 ** 40)
    got = time_to_int(t, precision)
    v.check("the whole number of units not after it", v.And(got <= t * precision, t * precision < got + 1))


@unit("C26/stamp", props="C26", funcs=FUNCS + ["vtelem.frame.framer:Framer.__init__", "vtelem.frame.framer:Framer.new_frame"],
      opts={"max_paths": 200})
def u_stamp(v):
    from vtelem.frame.framer import Framer

    framer = Framer(100, v.real("basis"))
    kind = v.choose("kind", ["invalid", "data", "event", "message", "stream"])
    t = exact_time(v, "time")
    out = v.outcome(lambda: framer.new_frame(kind, t))
    v.check("a frame can be stamped with the time", out[0] == "ok")
    if out[0] != "ok":
        return
    got = framer.timestamps[kind].get()
    v.check("the stamp is its milliseconds", v.And(got <= t * 1000, t * 1000 < got + 1))
    frame = out[1]
    data = frame.buffer.data
    app = framer.primitives["app_id"].get()
    at = 0
    for what, prim, val in (("application identifier", "UINT16", app), ("frame type", "UINT8", framer.primitives[kind].get()),
                            ("time stamp", "UINT64", got)):
        want = enc(v, prim_of(prim), val)
        size = wire(prim_of(prim))[1]
        v.check("the %s is on the wire" % what, v.same(data[at:at + size], want))
        at += size


@unit("C26/app_id", props="C26", funcs=FUNCS)
def u_app_id(v):
    from vtelem.frame.framer import Framer

    basis = v.real("basis")
    first = v.outcome(lambda: Framer.create_app_id(basis))
    v.check("an identifier is derived from any basis", first[0] == "ok")
    if first[0] != "ok":
        return
    got = first[1].get()
    v.check("it fits the identifier field", v.And(got >= 0, got <= 65535))
    other = Framer.create_app_id(v.real("other"))
    again = Framer.create_app_id(basis)
    v.check("equal bases give equal identifiers", v.same(again.get(), got))
    v.check("identifiers do not change afterwards", v.same(first[1].get(), got))
    v.check("each is its own value", v.And(other is not again, first[1] is not again))


@unit("C26/random", props="C26", funcs=FUNCS)
def u_random(v):
    from vtelem.frame.framer import Framer

    out = v.outcome(Framer.create_app_id)
    v.check("a random identifier can be drawn", out[0] == "ok")
    if out[0] == "ok":
        got = out[1].get()
        v.check("it fits the identifier field", v.And(got >= 0, got <= 65535))
        size = out[1].size()
        v.check("it takes the two bytes of the field", size == 2)


@unit("C26/framers", props="C26", funcs=["vtelem.frame.framer:Framer.__init__", "vtelem.channel.framer:ChannelFramer.__init__",
                                          "vtelem.message.framer:MessageFramer.__init__"])
def u_framers(v):
    """Every kind of framer derives the identifier from its basis."""
    from vtelem.channel.framer import ChannelFramer
    from vtelem.channel.registry import ChannelRegistry
    from vtelem.classes.time_entity import OptionalRLock
    from vtelem.frame.framer import Framer
    from vtelem.message.framer import MessageFramer

    basis = v.real("basis")
    want = Framer.create_app_id(basis).get()
    which = v.choose("which", ["plain", "channel", "message"])
    if which == "plain":
        framer = Framer(200, basis)
    elif which == "channel":
        framer = ChannelFramer(200, ChannelRegistry(), [], OptionalRLock(True), basis)
    else:
        framer = MessageFramer(200, basis)
    v.check("the framer's identifier comes from its basis", v.same(framer.primitives["app_id"].get(), want))


@search("C26")
def search_stamps(v):
    """Times and bases around powers of two and limits."""
    from vtelem.frame import time_to_int
    from vtelem.frame.framer import Framer

    for _ in range(20):
        bits = v.int("bits", 0, 50)
        num = v.int("num", 0, 2 ** bits)
        den = 2 ** v.int("den", 0, 10)
        t = num / den
        got = time_to_int(t)
        v.check("milliseconds not after the time", got == num * 1000 // den)
        basis = v.choose("basis", [0.0, -0.0, 1.0, -1.0, 0.5, 1e-300, 1e300, float("inf"), -float("inf"), 2 ** 53 + 1.0, v.real("b"), num / den])
        out = v.outcome(lambda: Framer.create_app_id(basis).get())
        v.check("any basis gives an identifier", out[0] == "ok" and 0 <= out[1] <= 65535)
        v.check("equal bases, equal identifiers", Framer.create_app_id(basis).get() == out[1])
