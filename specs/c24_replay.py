"""C24: replaying a file hands on its frames in order, once, to the limit."""
from pyvc.api import contract, search, unit
from pyvc.loops import LoopSpec

from .c19_writer import Env, T, zi

F = "vtelem.client.file:FileClient."
HANDLE = "vtelem.client:TelemetryClient.handle_frames"
DECODE = "vtelem.parsing.encapsulation:decode_frame"
PROCESS = "vtelem.frame.processor:FrameProcessor.process"
FUNCS = [F + "__init__", F + "process_raw_frames", F + "run", HANDLE, "vtelem.client:TelemetryClient.__init__"]
OPTS = {"mbqi": False, "branch_ms": 500}


class World:
    """A client in any state: frames next..top-1 of the stream are staged.

    dec(i) tells whether frame i can be decoded, nd(i) counts those before i.
    """

    def __init__(self, v):
        import z3

        from pyvc.sym import SBytes, SSeq
        from vtelem.client.file import FileClient, FileDecodeTask

        self.v, g = v, v.g
        I, B = z3.IntSort(), z3.BoolSort()
        size, byte = z3.Function(v.fresh_name("size"), I, I), z3.Function(v.fresh_name("byte"), I, I, I)
        self.dec, self.nd = z3.Function(v.fresh_name("decodes"), I, B), z3.Function(v.fresh_name("decoded"), I, I)

        def frame(i):
            i = zi(i)
            v.add(size(i) >= 0)
            res = SBytes(size(i), lambda j: byte(i, j), "bytes")
            res.index = i
            return res

        self.frame = frame
        g.w = self
        g.first = g.next = v.int("next", 0)
        g.top = v.int("top", 0)
        v.assume(g.next <= g.top)
        g.put, g.ends, g.msg, g.reads, g.chunk, g.eof = 0, 0, None, 0, None, False
        self.staged = SSeq(zi(g.top) - zi(g.next), frame, tag="frames", start=zi(g.next))
        self.limit = v.int("limit") if v.choose("limited", [True, False]) else None
        world = self

        class Path:
            """The file."""

            name = "file.vtelem"

            def open(self, mode="r", *_, **__):
                v.check("read as bytes", mode == "rb")
                return world.stream()

        class Output:
            """Where frames go."""

            def put(self, item, *_, **__):
                world.out(item)

        class Client(FileClient):
            """It may be told to stop at any time."""

            @property
            def state(self):
                from vtelem.enums.daemon import DaemonState

                return DaemonState.STOPPING if v.branch(v.bool("stopping").t) else DaemonState.RUNNING

            @state.setter
            def state(self, value):
                pass

        self.path = Path()
        self.index = v.int("byte index", 0)
        self.task = FileDecodeTask(self.path, self.index, self.limit)
        self.registry, self.app = object(), object()
        self.client = Client(self.task, Output(), self.registry, self.app, Env(), v.int("mtu", 1))
        self.client.to_process = self.staged
        g.count0 = v.int("count", 0)
        self.client.frame_count = g.count0

    # what it does
    def out(self, item):
        v, g = self.v, self.v.g
        if item is None:
            v.check("the end is signalled at the end of the file", g.eof)
            v.check("once", g.ends == 0)
            g.ends = 1
            return
        v.check("a decoded frame is handed on", g.msg is not None and item is g.msg)
        g.msg = None
        g.put = g.put + 1

    def full(self):
        """Was the limit reached?"""
        if self.limit is None:
            return False
        return self.client.frame_count >= self.limit

    def staged_is(self, lo, hi):
        """Frames lo..hi-1 are staged, in order."""
        from pyvc.sym import SSeq

        seq = self.client.to_process
        if isinstance(seq, list):
            if seq:
                return False
            return self.v.same(lo, hi)
        if not isinstance(seq, SSeq) or seq.elem is not self.frame or seq.tail:
            return False
        return self.v.And(self.v.same(T(seq.n), hi - lo), self.v.Or(self.v.same(lo, hi), self.v.same(T(seq.start), lo)))

    def restage(self, lo, hi):
        """Makes frames lo..hi-1 the staged ones."""
        import z3

        seq = self.client.to_process
        seq.start, seq.n = zi(lo), z3.simplify(zi(hi) - zi(lo))

    def stream(self):
        world, v, g = self, self.v, self.v.g

        class Stream:
            """The open file, of any length, cut into any reads."""

            opened = False

            def __enter__(self):
                self.opened = True
                return self

            def __exit__(self, *_):
                self.opened = False

            def close(self):
                self.opened = False

            def seek(self, pos, *_):
                v.check("reading starts where it should", v.same(pos, world.index))
                v.check("once", not g.sought)
                g.sought = True

            def read(self, amount=-1):
                v.check("it is open, at the right place", self.opened and g.sought)
                v.check("nothing is asked for that cannot be read", amount != 0)
                v.check("what was read before is processed", g.chunk is None)
                v.check("nothing is read beyond the end", g.ends == 0 and not g.eof)
                v.check("nor when the limit is reached", v.Not(world.full()))
                g.reads = g.reads + 1
                if v.branch(v.bool("at the end").t):
                    g.eof = True
                    return b""
                data = v.bytes("data")
                v.assume(v.call(len, data) > 0)
                g.chunk = data
                return data

            def tell(self):
                v.check("it is open", self.opened)
                g.told = v.int("position", 0)
                return g.told

        return Stream()


@contract(DECODE, by="C07/decode_invalid")
def c_decode(v, channel_registry, data, size, expected_id=None):
    """Of the next frame; undecodable ones give none."""
    g, w = v.g, v.g.w
    v.check("the frame before was handed on", g.msg is None)
    v.check("frames are decoded in turn, once", v.same(data, w.frame(g.next)))
    v.check("whole", v.same(size, v.call(len, data)))
    v.check("with the client's channels and id", channel_registry is w.registry and expected_id is w.app)
    i = zi(g.next)
    g.next = g.next + 1
    if not v.branch(w.dec(i)):
        return None

    class Message:
        """A decoded frame."""

    g.msg = Message()
    return g.msg


@contract(HANDLE, by="C24/handle")
def c_handle(v, self, new_frames):
    """Hands on those that decode, in order; gives their number."""
    from pyvc.sym import SSeq

    g, w = v.g, v.g.w
    v.check("of this client", self is w.client)
    if isinstance(new_frames, SSeq):
        v.check("staged frames, from the front, once", new_frames.elem is w.frame and not new_frames.tail and v.Or(
            v.same(T(new_frames.n), 0), v.same(T(new_frames.start), g.next)))
        n = T(new_frames.n)
    else:
        n = len(new_frames)
        for k in range(n):
            v.check("staged frames, from the front, once", v.same(new_frames[k], w.frame(g.next + k)))
    v.check("it gets on", n > 0)
    v.check("never more than are wanted", w.limit is None or w.client.frame_count + n <= w.limit)
    lo = zi(g.next)
    g.next = g.next + n
    done = w.nd(zi(g.next)) - w.nd(lo)
    v.add(done >= 0)
    v.add(done <= zi(n))
    g.put = g.put + T(done)
    return T(done)


@contract(PROCESS, by="C08/process")
def c_process(v, self, data, frame_size, mtu):
    """The frames completed by this data come next in the stream."""
    from pyvc.sym import SSeq

    g, w = v.g, v.g.w
    v.check("by the client's processor", self is w.client.processor)
    v.check("what was read", g.chunk is not None and data is g.chunk)
    v.check("with the client's mtu", v.same(mtu, w.client.mtu))
    g.chunk = None
    m = v.int("completed", 0)
    lo = zi(g.top)
    g.top = g.top + m
    return SSeq(m.t, w.frame, tag="frames", start=lo)


def progress(w):
    """What always holds, from any state the client was in."""
    v, g = w.v, w.v.g
    c = w.client
    return [
        ("frames are taken in order", v.And(g.next >= g.first, g.next <= g.top)),
        ("no staged frame is lost", w.staged_is(g.next, g.top)),
        ("each frame handed on is counted", v.And(g.put >= 0, v.same(c.frame_count, g.count0 + g.put))),
        ("never more than wanted", w.limit is None or v.Or(c.frame_count <= w.limit, v.same(g.put, 0))),
    ]


class Each(LoopSpec):
    """The first k frames were decoded and handed on."""

    name = "each frame"
    tag = "frames"

    def inv(self, S, k):
        from pyvc.sym import mk

        g, w, c = S.g, S.g.w, S.ctx
        return [("in turn", c.same(g.next, g.first + mk(k))), ("each that decodes is handed on", c.And(g.msg is None, c.same(g.put, T(w.nd(zi(g.next)) - w.nd(zi(g.first))))))]

    def ghosts(self, S, k):
        return {"put": S.g.put}

    def havoc(self, S, k):
        g, w, c = S.g, S.g.w, S.ctx
        g.next, g.put = c.int("next", 0), c.int("put", 0)
        return {}

    def step_begin(self, S, k, item):
        import z3

        w, i = S.g.w, zi(S.g.next)
        S.ctx.add(w.nd(i + 1) == w.nd(i) + z3.If(w.dec(i), 1, 0))

    def modifies(self, S):
        return [S.g]


@unit("C24/handle", props="C24", funcs=FUNCS, uses=[DECODE], loops=[Each], concrete=False, opts=OPTS)
def u_handle(v):
    """Any list of frames."""
    from pyvc.sym import SSeq

    g = v.g
    w = World(v)
    n = v.int("frames", 0)
    frames = SSeq(n.t, w.frame, tag="frames", start=zi(g.next))
    out = v.outcome(lambda: w.client.handle_frames(frames))
    v.check("does not fail", out[0] == "ok")
    if out[0] != "ok":
        return
    v.check("each was decoded", v.same(g.next, g.first + n))
    v.check("each that decodes was handed on", g.msg is None and v.same(g.put, T(w.nd(zi(g.next)) - w.nd(zi(g.first)))))
    v.check("their number is given", v.same(out[1], g.put))
    v.check("nothing else is", g.ends == 0)


class Staged(LoopSpec):
    """Some staged frames were handed on, the others still are staged."""

    name = "staged"

    def match_while(self, key, n, locs):
        return True

    def inv(self, S, k):
        return progress(S.g.w)

    def havoc(self, S, k):
        g, w, c = S.g, S.g.w, S.ctx
        g.next, g.put = c.int("next", 0), c.int("put", 0)
        w.restage(g.next, g.top)
        w.client.frame_count = g.count0 + g.put
        return {}

    def modifies(self, S):
        c = S.g.w.client
        return [S.g, c, c.to_process]


class Popping(LoopSpec):
    """k frames were taken off the front of the staged ones."""

    name = "popping"

    def match_comp(self, fn, seq):
        return True

    def begin(self, S):
        g = S.g
        if S.cut is not getattr(self, "cut", None):
            seq = g.w.client.to_process
            self.cut, self.lo, self.hi = S.cut, T(seq.start), T(seq.start + seq.n)

    def inv(self, S, k):
        from pyvc.sym import mk

        self.begin(S)
        return [("the rest is still staged", S.g.w.staged_is(self.lo + mk(k), self.hi))]

    def havoc(self, S, k):
        from pyvc.sym import mk

        S.g.w.restage(self.lo + mk(k), self.hi)
        return {}

    def comp_item(self, S, k, item):
        S.ctx.check("the frame at the front is taken", S.ctx.same(item, S.g.w.frame(zi(self.lo) + k)))

    def comp_result(self, S, k):
        from pyvc.sym import SSeq

        return SSeq(k, S.g.w.frame, tag="frames", start=zi(self.lo))

    def modifies(self, S):
        return [S.g.w.client.to_process]


def after_staged(w, keep):
    """What process_raw_frames() leaves and answers."""
    v = w.v
    return progress(w) + [
        ("it stops early only at the limit", v.Or(v.same(v.g.next, v.g.top), w.full())),
        ("it tells whether to go on", v.Iff(keep, v.Not(w.full()))),
    ]


@unit("C24/staged", props="C24", funcs=FUNCS, uses=[HANDLE], loops=[Staged, Popping], concrete=False, opts=OPTS)
def u_staged(v):
    """Any staged frames, any limit, any number before."""
    w = World(v)
    out = v.outcome(lambda: w.client.process_raw_frames(w.task))
    v.check("does not fail", out[0] == "ok")
    if out[0] != "ok":
        return
    for name, cond in after_staged(w, out[1]):
        v.check(name, cond)
    v.check("no end is signalled", v.g.ends == 0)


@contract(F + "process_raw_frames", by="C24/staged")
def c_staged(v, self, task):
    """As verified by C24/staged."""
    g, w = v.g, v.g.w
    v.check("of this client, with its task", self is w.client and task.max_frames is w.limit)
    for name, cond in progress(w):
        v.check(name, cond)
    was = (g.next, g.put)
    g.next, g.put = v.int("next", 0), v.int("put", 0)
    v.assume(v.And(g.next >= was[0], g.put >= was[1], g.put - was[1] <= g.next - was[0], g.next <= g.top))
    w.restage(g.next, g.top)
    w.client.frame_count = g.count0 + g.put
    keep = v.bool("keep")
    for _, cond in after_staged(w, keep):
        v.assume(cond)
    if w.limit is not None:
        v.assume(v.Or(w.client.frame_count <= w.limit, v.same(g.put, was[1])))
    return keep


class Reading(LoopSpec):
    """What was read so far is handed on or staged."""

    name = "reading"

    def match_while(self, key, n, locs):
        return True

    def inv(self, S, k):
        g, c = S.g, S.ctx
        from pyvc.sym import SBool

        over = [c.Not(x) for x in S.locals.values() if isinstance(x, (bool, SBool))]
        return progress(g.w) + [
            ("everything read is processed", g.chunk is None),
            ("the limit is not reached, or it is known", c.Or(c.Not(g.w.full()), *over)),
            ("the end was not reached", not g.eof and g.ends == 0),
            ("nothing waits that could be handed on", c.Or(c.same(g.next, g.top), g.w.full())),
        ]

    def havoc(self, S, k):
        g, w, c = S.g, S.g.w, S.ctx
        g.next, g.put, g.top, g.reads = c.int("next", 0), c.int("put", 0), c.int("top", 0), c.int("reads", 0)
        w.restage(g.next, g.top)
        w.client.frame_count = g.count0 + g.put
        return {}

    def modifies(self, S):
        c = S.g.w.client
        return [S.g, c, c.to_process]


@unit("C24/run", props="C24", funcs=FUNCS, uses=[F + "process_raw_frames", PROCESS], loops=[Reading], concrete=False, opts=OPTS)
def u_run(v):
    """One run, from any state, over any file."""
    g = v.g
    w = World(v)
    g.sought = False
    g.told = None
    out = v.outcome(lambda: w.client.run())
    v.check("does not fail", out[0] == "ok")
    if out[0] != "ok":
        return
    for name, cond in progress(w):
        v.check(name, cond)
    v.check("nothing read is lost", g.chunk is None)
    v.check("the end is signalled exactly when reached", (g.ends == 1) == g.eof)
    v.check("what is left staged was beyond the limit", v.Or(v.same(g.next, g.top), w.full()))
    task = w.client.task
    v.check("the next run goes on where this one stopped", g.told is not None and v.same(task.byte_index, g.told))
    v.check("with the same file and limit", task.path is w.path and task.max_frames is w.limit)


@search("C24")
def search_replay(v):
    """Real files, replayed in any number of runs."""
    import os
    import pathlib
    import queue
    import shutil
    import struct
    import tempfile

    from vtelem.classes.type_primitive import new_default
    from vtelem.client.file import FileClient, FileDecodeTask
    from vtelem.enums.daemon import DaemonState

    from ._wire import data_frame, draw_registry, draw_value, millis
    from .c18_machines import environment

    reg, types = draw_registry(v, 3)
    mtu = v.choose("mtu", [64, 100, 1500])
    app = new_default("id")
    assert app.set(5)
    stream, want = b"", []
    scratch = tempfile.mkdtemp(prefix="vc24")
    try:
        path = pathlib.Path(scratch, "x.vtelem")
        path.write_bytes(b"")
        out = queue.Queue()
        limit = v.choose("limit", [None, None, 0, 1, 2, 3, 5])
        client = FileClient(FileDecodeTask(path, 0, limit), out, reg, app, environment(v), mtu)
        client.state = DaemonState.RUNNING
        taken, stopped = 0, False
        for _ in range(v.int("runs", 1, 4)):
            blob = b""
            for _ in range(v.int("frames", 0, 6)):
                kind = v.choose("kind", ["good", "good", "good", "other app", "bad type", "short"])
                elems = [(cid, prim, draw_value(v, prim)) for cid, prim in types.items()]
                stamp = len(stream) + len(blob)
                raw = data_frame(6 if kind == "other app" else 5, stamp, elems, v.choose("crc", [True, False]))
                if kind == "bad type":
                    raw = raw[:2] + b"\x09" + raw[3:]
                if kind == "short":
                    raw = raw[:9]
                if kind == "good":
                    want.append((stamp, elems))
                blob += struct.pack(">I", len(raw)) + raw
            # the last frame may come in two parts
            stream += blob
            with path.open("ab") as file:
                cut = v.int("cut", 0, len(blob)) if blob else 0
                file.write(blob[:cut])
            for part in (blob[cut:], b""):
                before = taken
                client.run()
                got, ends = [], 0
                while not out.empty():
                    item = out.get_nowait()
                    if item is None:
                        ends += 1
                        v.check("the end comes last", out.empty())
                    else:
                        got.append(item)
                taken += len(got)
                v.check("the recorded frames, in order, once", [x.header.timestamp for x in got] == [x[0] for x in want[before:taken]])
                v.check("never more than wanted", limit is None or taken <= limit)
                v.check("they are counted", client.frame_count == taken)
                at_limit = limit is not None and taken >= limit
                if not at_limit:
                    size = os.path.getsize(path)
                    v.check("everything was read", client.task.byte_index == size)
                    pos, complete = 0, 0
                    while pos + 4 <= size:
                        (num,) = struct.unpack(">I", stream[pos:pos + 4])
                        raw = stream[pos + 4:pos + 4 + num]
                        pos += 4 + num
                        if pos <= size and num > 9 and raw[1] == 5 and raw[2] == 1:
                            complete += 1
                    v.check("every complete frame was handed on", taken == complete)
                v.check("the end is signalled unless the limit was reached", ends == (0 if at_limit else 1))
                with path.open("ab") as file:
                    file.write(part)
    finally:
        shutil.rmtree(scratch)
