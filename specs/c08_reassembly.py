"""C08: reassembly of length-prefixed frames from arbitrarily cut reads.

The contract of process() is the greedy parse of (what was kept ++ data);
the lemma units show that the greedy parse does not depend on the cut.
"""
from pyvc.api import search, unit
from pyvc.loops import LoopSpec

from .c03_codec import dec_at
from .c06_decode import find_lists, rebind

FUNCS = ["vtelem.frame.processor:FrameProcessor.process", "vtelem.frame.processor:FrameProcessor.read_size"]


def arbitrary_processor(v):
    """Any state process() can leave behind -> (processor, kept bytes)."""
    from vtelem.classes.type_primitive import new_default
    from vtelem.frame.processor import FrameProcessor

    proc = FrameProcessor()
    size = new_default("count")
    data = v.bytes("buffered", "bytearray", maxn=30)
    n = v.call(len, data)
    proc.buffer.data = data
    proc.buffer.size = n
    proc.size_stale = v.choose("stale", [True, False])
    if proc.size_stale:
        v.assume(n < 4)
        # left over from an earlier frame (the MTU may have changed since)
        proc.size = v.int("size", 0, 2 ** 32 - 1, cmax=64)
        kept = v.call(bytes, data)
    else:
        proc.size = v.int("size", 0, 2 ** 32 - 1, cmax=64)
        v.assume(proc.size > n)
        size.data = proc.size
        kept = size.buffer() + data
        size.data = 0
    return proc, size, kept


class Frames(LoopSpec):
    """k frames of the stream were cut off; the rest is still buffered."""

    name = "frames"

    def match_while(self, key, n, locs):
        return any(x is self.proc() for x in locs.values()) or any(x is self.proc().buffer for x in locs.values())

    @staticmethod
    def proc():
        from pyvc import core

        return core.CUR.g.proc

    def state(self, S):
        p = S.g.proc
        return p, p.buffer, p.buffer.data

    def inv(self, S, k):
        import z3

        from pyvc.sym import And, Implies, Not, Or, mk, zint

        g = S.g
        p, buf, data = self.state(S)
        at = mk(g.p(zint(k)))
        c = S.ctx
        if not hasattr(g, "k0"):
            g.k0 = True
            c.add(g.p(0) == 0)
        n = c.call(len, data)
        stale = p.size_stale
        pend = Not(stale) if not isinstance(stale, bool) else (not stale)
        j = c.int("inv.j")
        begin = c.Ite(pend, at + 4, at)
        return [
            ("cursor at the front", c.And(buf.pos == 0, buf.size == n)),
            ("inside the stream", And(at >= 0, at <= g.n)),
            ("kept: the rest of the stream", Or(And(buf.size == g.n - begin, g.n >= begin), self.dropped(S, k))),
            ("kept: its bytes", Implies(And(j >= 0, j < buf.size), c.byte(data, j) == c.byte(g.s, begin + j))),
            ("pending length is the announced one", Implies(pend, p.size == g.length(at))),
            ("pending length is known", Implies(pend, at + 4 <= g.n)),
            ("announced lengths are sizes", p.size >= 0),
        ]

    def dropped(self, S, k):
        """An unreasonable length at the end of what was cut off."""
        from pyvc.sym import And, mk, zint

        g = S.g
        p, buf, _ = self.state(S)
        at = mk(g.p(zint(k)))
        return And(buf.size == 0, p.size_stale, at + 4 <= g.n, g.length(at) > g.mtu)

    def maybe(self, S, k):
        from pyvc.sym import Implies, Or

        p, buf, _ = self.state(S)
        stale = p.size_stale
        return [
            ("nothing more to read", Implies(stale, buf.size < 4)),
            ("reasonable", Or(stale, p.size <= S.g.mtu)),
        ]

    def havoc(self, S, k):
        import z3

        from pyvc.core import Unsupported
        from pyvc.sym import SBool, SBytes, SInt, SSeq, mk, zint

        g, c = S.g, S.ctx
        p, buf, _ = self.state(S)
        lists = find_lists(S)
        if not lists or len({id(x[2]) for x in lists}) != 1:
            raise Unsupported("no single list collects the frames")
        p.size_stale = SBool(z3.Bool(c.fresh_name("stale")))
        p.size = SInt(z3.Int(c.fresh_name("size")))
        g.unit.data = SInt(z3.Int(c.fresh_name("prefix")))
        n = z3.Int(c.fresh_name("kept"))
        c.add(n >= 0)
        shift = z3.If(p.size_stale.t, g.p(k), g.p(k) + 4)
        sf = g.s.f
        buf.data = SBytes(n, lambda j: sf(j + shift), "bytearray")
        buf.size = mk(n)
        buf.pos = 0
        self.seq = SSeq(k, lambda i: self.elem(S, i, k), tag="frames")
        return rebind(lists, self.seq)

    @staticmethod
    def facts(g, i):
        """p(i + 1) by definition."""
        from pyvc.sym import mk, zint

        at = mk(g.p(i))
        g.v.add(g.p(i + 1) == zint(at + 4 + g.length(at)))

    def elem(self, S, i, k):
        import z3

        from pyvc.sym import zint, zb

        g = S.g
        self.facts(g, zint(i))
        S.ctx.add(z3.Implies(z3.And(zint(i) >= 0, zint(i) < k), zb(whole(g, i))))
        return frame_at(g, i)

    def step_begin(self, S, k, item):
        pass

    def step_end(self, S, k):
        c, g = S.ctx, S.g
        c.check("each round cuts off one frame", len(self.seq.tail) == 1)
        self.facts(g, k)
        if len(self.seq.tail) == 1:
            c.check("frame k was announced and complete", whole(g, k))
            c.check("frame k is cut where announced", c.same(self.seq.tail[0], frame_at(g, k)))
        self.seq.tail.clear()
        self.seq.n = k + 1

    def modifies(self, S):
        p, buf, data = self.state(S)
        return [p, buf, data, self.seq, self.seq.tail, S.g, S.g.unit]


def whole(g, i):
    """Frame i lies inside the stream and is not too long."""
    from pyvc.sym import And, mk, zint

    at = mk(g.p(zint(i)))
    size = g.length(at)
    return And(at >= 0, at + 4 + size <= g.n, size <= g.mtu, size >= 0)


def frame_at(g, i):
    """The payload of frame i of the stream."""
    from pyvc.sym import SBytes, mk, zint

    at = g.p(zint(i))
    sf = g.s.f
    return SBytes(zint(g.length(mk(at))), lambda j: sf(at + 4 + j), "bytes")


@unit("C08/process", props="C08", funcs=FUNCS, loops=[Frames], concrete=False, weight=2)
def u_process(v):
    import z3

    from pyvc.sym import lift_bytes, mk, zint

    from vtelem.classes import DEFAULTS

    g = v.g
    g.v = v
    g.mtu = v.int("mtu", 1, 2 ** 32 - 1)
    proc, size, kept = arbitrary_processor(v)
    data = v.bytes("data")
    g.proc, g.unit = proc, size
    g.s = lift_bytes(kept + data)
    g.n = v.call(len, kept + data)
    g.p = z3.Function("frame_start", z3.IntSort(), z3.IntSort())
    g.length = lambda at: dec_at(v, DEFAULTS["count"], g.s, at)
    res = v.call(proc.process, data, size, g.mtu)
    m = v.call(len, res)
    what = v.choose("look at", ["frame", "rest"])
    if what == "frame":
        i = v.index("i", m)
        got = res[i]
        v.check("every frame is one of the stream, whole and within the MTU", whole(g, i))
        v.check("frames are exactly the announced bytes, in order", v.same(got, frame_at(g, i)))
        v.cover("frame")
        return
    at = mk(g.p(zint(m)))
    left = g.n - at
    bad = v.And(left >= 4, g.length(at) > g.mtu)
    v.check("no complete frame is held back",
            v.Or(left < 4, bad, v.And(g.length(at) <= g.mtu, left < 4 + g.length(at))))
    n = v.call(len, proc.buffer.data)
    v.check("cursor at the front", v.And(proc.buffer.pos == 0, proc.buffer.size == n))
    if proc.size_stale:
        j = v.int("j")
        v.check("the rest is kept, or all of it is unreasonable",
                v.Or(v.And(bad, n == 0), v.And(v.Not(bad), n == left, n < 4)))
        v.check("the rest is kept unchanged", v.Implies(
            v.And(j >= 0, j < n), v.byte(proc.buffer.data, j) == v.byte(g.s, at + j)))
    else:
        j = v.int("j")
        v.check("an incomplete frame is kept", v.And(v.Not(bad), n == left - 4, proc.size == g.length(at)))
        v.check("the rest is kept unchanged", v.Implies(
            v.And(j >= 0, j < n), v.byte(proc.buffer.data, j) == v.byte(g.s, at + 4 + j)))
        v.check("it waits for more", proc.size > n)


@unit("C08/chunks", props="C08", funcs=FUNCS, concrete=False)
def u_chunks(v):
    """Lemma: greedy parsing does not depend on where the stream is cut.

    A ++ B is the stream; the first read sees A, the second what A left and
    B. p: frame starts in A, q: in the whole stream, r: in the second read.
    """
    import z3

    from pyvc.sym import SBytes, lift_bytes, mk, zint

    from vtelem.classes import DEFAULTS

    prim = DEFAULTS["count"]
    a, b = v.bytes("a"), v.bytes("b")
    na = v.call(len, a)
    whole_ = lift_bytes(a + b)
    p, q, r = (z3.Function(x, z3.IntSort(), z3.IntSort()) for x in "pqr")
    i, m = v.int("i", 0), v.int("m", 0)

    def size(s, at):
        return dec_at(v, prim, s, at)

    def nxt(fn, s, k):
        at = mk(fn(zint(k)))
        v.add(fn(zint(k) + 1) == zint(at + 4 + size(s, at)))
        return at

    la = lift_bytes(a)
    if v.choose("part", ["first", "second"]) == "first":
        # while frame i is announced inside A, both parses agree on its end
        v.assume(mk(p(zint(i))) == mk(q(zint(i))))
        v.assume(mk(p(zint(i))) >= 0)
        at = nxt(p, la, i)
        nxt(q, whole_, i)
        v.assume(at + 4 <= na)
        v.check("a longer stream starts with the same frames", mk(p(zint(i) + 1)) == mk(q(zint(i) + 1)))
        v.check("frame starts never run backwards", mk(p(zint(i) + 1)) >= 0)
        return
    # what is left of A after m frames, then B
    start = q(zint(m))
    v.assume(mk(start) >= 0)
    v.assume(mk(start) <= na)
    wf = whole_.f
    rest = SBytes(whole_.n - start, lambda j: wf(start + j))
    v.check("what was kept and the next read continue the stream",
            v.same(a[mk(start):na] + b, rest))
    v.assume(mk(q(zint(m) + zint(i))) == mk(start + r(zint(i))))
    nxt(r, rest, i)
    nxt(q, whole_, mk(zint(m) + zint(i)))
    v.check("the second read goes on with the next frame",
            mk(q(zint(m) + zint(i) + 1)) == mk(start + r(zint(i) + 1)))


@search("C08")
def cuts(v):
    """Real runs: the greedy parse of the concatenated reads."""
    from vtelem.classes.type_primitive import new_default
    from vtelem.frame.processor import FrameProcessor

    mtu = v.choose("mtu", [1, 5, 20, 100])
    frames = [v.bytes("frame", n=v.choose("len", [x for x in (0, 1, 2, 3, 4, 5, 20, 100, mtu) if x <= mtu]))
              for _ in range(v.int("frames", 0, 6))]
    stream = b"".join(len(f).to_bytes(4, "big") + f for f in frames)
    proc, size = FrameProcessor(), new_default("count")
    if v.choose("start", ["clean", "clean", "after an unreasonable length"]) != "clean":
        bad = v.choose("bad", [mtu + 1, 2 ** 31, 2 ** 32 - 1]).to_bytes(4, "big") + v.bytes("junk")
        cut = v.int("bad cut", 0, 3)
        out = proc.process(bad[:cut], size, mtu) if cut else []
        out += proc.process(bad[cut:], size, mtu)
        v.check("nothing comes from an unreasonable length", not out)
    got = []
    how = v.choose("how", ["bytes", "whole", "random", "random"])
    at = 0
    if v.choose("before", ["nothing", "a larger MTU"]) != "nothing":
        # one frame under a larger MTU, then the MTU shrinks
        big = v.bytes("big", n=mtu + 7)
        v.check("the larger frame comes out",
                proc.process(len(big).to_bytes(4, "big") + big, size, mtu + 50) == [big])
    while at < len(stream):
        step = {"bytes": 1, "whole": len(stream)}.get(how) or v.int("step", 1, 12)
        got += [bytes(x) for x in proc.process(stream[at:at + step], size, mtu)]
        at += step
        done, pos = [], 0
        for f in frames:
            pos += 4 + len(f)
            if pos <= at:
                done.append(f)
        v.check("exactly the complete frames came out, in order", got == done)
