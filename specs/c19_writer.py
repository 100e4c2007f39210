"""C19: every output gets every frame; failing streams are isolated."""
from pyvc.api import search, unit
from pyvc.loops import LoopSpec

from ._common import free
from .c03_codec import enc
from .c18_machines import environment

W = "vtelem.stream.writer:StreamWriter."
FUNCS = [W + n for n in ("__init__", "overhead", "get_queue", "add_queue", "registered_queue", "add_stream", "stream_added",
                         "add_file", "add_semaphore_stream", "remove_stream", "remove_queue")] + [
    "vtelem.stream.writer:default_writer", "vtelem.daemon.queue:QueueDaemon.__init__", "vtelem.frame:Frame.with_size_header",
    "vtelem.frame:Frame.raw", "vtelem.daemon:DaemonBase.increment_metric", "vtelem.daemon:DaemonBase.decrement_metric"]
OK, SHORT, BROKEN, CLOSED, STUCK = range(5)
COUNTS = ("stream_writes", "bytes_written", "queue_writes", "stream_count", "queue_count")


def T(cond):
    from pyvc.sym import mk

    return mk(cond)


class Env:
    """A metered environment, as the writer sees it: metrics by name."""

    def __init__(self):
        self.values = {}

    def has_metric(self, name):
        return name in self.values

    def add_metric(self, name, *_, **__):
        self.values[name] = 0

    def set_metric(self, name, value, *_, **__):
        self.values[name] = value

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *_, **__: True


class World:
    """Any number of streams and queues, each failing in its own way.

    sid(i)/qid(i) is the identifier of the i-th, at()/qat() its place; how(i)
    is what writing to it does. nf(i) counts the failing ones before i, fidx
    enumerates them (both are determined by how).
    """

    def __init__(self, v):
        import z3

        I, B = z3.IntSort(), z3.BoolSort()
        F = lambda nm, *s: z3.Function(v.fresh_name(nm), *s)
        self.v = v
        self.n, self.m = v.int("streams", 0).t, v.int("queues", 0).t
        self.next, self.qnext = v.int("next id", 0), v.int("next queue id", 0)
        self.sid, self.at, self.qid, self.qat = F("sid", I, I), F("at", I, I), F("qid", I, I), F("qat", I, I)
        self.how, self.flush, self.closes = F("how", I, I), F("flush", I, B), F("closes", I, B)
        self.nf, self.fidx, self.bytes = F("nf", I, I), F("fidx", I, I), F("written", I, I)
        i, j = z3.Int(v.fresh_name("i")), z3.Int(v.fresh_name("j"))
        inside = lambda x, n: z3.And(x >= 0, x < n)
        for key, at, n, top in ((self.sid, self.at, self.n, self.next), (self.qid, self.qat, self.m, self.qnext)):
            v.add(z3.ForAll([i], z3.Implies(inside(i, n), z3.And(at(key(i)) == i, key(i) >= 0, key(i) < top.t))))
        v.add(z3.ForAll([i], z3.And(self.how(i) >= OK, self.how(i) <= STUCK)))
        v.add(z3.ForAll([i], z3.Implies(i >= 0, z3.And(self.nf(i) >= 0, self.nf(i) <= i))))
        v.add(z3.And(self.nf(0) == 0, self.bytes(0) == 0))
        # the enumeration of the failing streams
        v.add(z3.ForAll([i], z3.Implies(z3.And(inside(i, self.n), self.fails(i)), z3.And(
            self.fidx(self.nf(i)) == i, inside(self.nf(i), self.nf(self.n))))))
        v.add(z3.ForAll([j], z3.Implies(inside(j, self.nf(self.n)), z3.And(
            inside(self.fidx(j), self.n), self.fails(self.fidx(j)), self.nf(self.fidx(j)) == j))))

    def fails(self, i):
        import z3

        return z3.Or(self.how(i) == SHORT, self.how(i) == BROKEN, self.how(i) == CLOSED,
                     z3.And(self.how(i) == STUCK, self.flush(i)))

    def has(self, s):
        import z3

        i = self.at(s)
        return z3.And(i >= 0, i < self.n, self.sid(i) == s)

    def hasq(self, s):
        import z3

        i = self.qat(s)
        return z3.And(i >= 0, i < self.m, self.qid(i) == s)

    def define(self, k):
        """The counting functions at k."""
        import z3

        v = self.v
        v.add(self.nf(k + 1) == self.nf(k) + z3.If(self.fails(k), 1, 0))
        v.add(self.bytes(k + 1) == self.bytes(k) + z3.If(self.fails(k), 0, self.total))

    def left(self, j):
        """Membership when the first j failing streams are gone."""
        import z3

        return lambda s: z3.And(self.has(s), z3.Not(z3.And(self.fails(self.at(s)), self.nf(self.at(s)) < j)))

    def streams(self, j=0):
        from pyvc.sym import SInt, SMap, mk, zint

        import z3

        keep = self.left(zint(j))
        keys = (lambda i: SInt(self.sid(zint(i)))) if j is 0 else None  # pylint: disable=literal-comparison
        return SMap(lambda s: mk(keep(zint(s))), lambda s: Stream(self, z3.simplify(self.at(zint(s)))), keys=keys,
                    n=self.n if keys else None, tag="streams", name="streams")

    def closers(self, j=0):
        from pyvc.sym import SMap, mk, zint

        keep = self.left(zint(j))
        v = self.v
        return SMap(lambda s: mk(keep(zint(s))),
                    lambda s: (lambda: self.closed(s)) if v.branch(self.closes(self.at(zint(s)))) else None, name="closers")

    def closed(self, s):
        self.v.g.closings.append(s)

    def install(self, writer):
        from pyvc.sym import SBool, SInt, SMap, mk, zint

        import z3

        writer.streams, writer.stream_closers = self.streams(), self.closers()
        writer.stream_attrs = SMap(lambda s: mk(self.has(zint(s))),
                                   lambda s: {"flush": mk(self.flush(self.at(zint(s))))}, name="attrs", default=lambda: {"flush": False})
        writer.queues = SMap(lambda s: mk(self.hasq(zint(s))), lambda s: Queue(self, z3.simplify(self.qat(zint(s)))),
                             keys=lambda i: SInt(self.qid(zint(i))), n=self.m, tag="queues", name="queues")
        writer.curr_id, writer.queue_id = self.next, self.qnext
        self.base = {}
        for name in COUNTS:
            val = v_int(self.v, name)
            if name == "stream_count":
                val = mk(self.n)
            if name == "queue_count":
                val = mk(self.m)
            self.base[name] = val
            writer.reset_metric(name, val)
        self.writer, self.data = writer, writer.function["metrics_data"]


def v_int(v, name):
    return v.int(name, 0, 2 ** 31)


class Stream:
    """The i-th output stream."""

    def __init__(self, w, i):
        self.w, self.i = w, i

    def write(self, data):
        w, v, g = self.w, self.w.v, self.w.v.g
        i = self.i
        v.check("a stream is written once per frame, in turn", v.same(i, g.written))
        v.check("length prefix and frame are written", v.same(data, g.wire))
        g.written = g.written + 1
        if v.branch(w.how(i) == SHORT):
            n = v.choose("short", ["less", "nothing", "none"])
            if n == "none":
                return None
            n = 0 if n == "nothing" else v.int("accepted", 0)
            v.assume(n < g.total)
            return n
        if v.branch(w.how(i) == BROKEN):
            raise OSError(5, "broken")
        if v.branch(w.how(i) == CLOSED):
            raise ValueError("write to closed file")
        return g.total

    def flush(self):
        w, v = self.w, self.w.v
        v.check("flushed after the frame was written", v.same(self.i + 1, v.g.written))
        v.g.flushed = v.g.flushed + 1
        if v.branch(w.how(self.i) == STUCK):
            raise BrokenPipeError("flush")


class Queue:
    """The i-th output queue."""

    def __init__(self, w, i):
        self.w, self.i = w, i

    def put(self, frame, *_, **__):
        v, g = self.w.v, self.w.v.g
        if g.single:
            g.puts.append(frame)
            return
        v.check("a queue gets the frame once", v.same(self.i, g.queued))
        v.check("it is the frame itself", frame is g.frame)
        g.queued = g.queued + 1


def metrics(w, want):
    """The invariant of the metrics."""
    out = []
    for name, val in want.items():
        out.append(("metric '%s' is exact" % name, w.v.same(w.writer.env.values["out." + name], val)))
        out.append(("counter '%s' is exact" % name, w.v.same(w.data[name], val)))
    return out


def havoc_metrics(S, names):
    w, c = S.g.w, S.ctx
    for name in names:
        val = c.int("m." + name)
        w.writer.env.values["out." + name] = val
        w.data[name] = val


class Writing(LoopSpec):
    """The first k streams were written; the failing ones are listed."""

    name = "writing"
    tag = "streams"

    def target(self, S):
        """The list(s) of streams to remove made so far."""
        from pyvc.core import Unsupported
        from pyvc.sym import SSeq

        names = [n for n, x in S.locals.items() if not n.startswith("_vc") and (
            (isinstance(x, list) and not x) or (isinstance(x, SSeq) and x.tag == "failed"))]
        if len(names) != 1:
            raise Unsupported("no single list of failed streams")
        return names[0]

    def havoc(self, S, k):
        from pyvc.sym import SInt, SSeq, zint

        g, w, c = S.g, S.g.w, S.ctx
        g.written, g.flushed = c.int("written", 0), 0
        havoc_metrics(S, ("stream_writes", "bytes_written"))
        seq = SSeq(w.nf(zint(k)), lambda j: (SInt(w.sid(w.fidx(zint(j)))), Stream(w, w.fidx(zint(j)))), tag="failed")
        return {self.target(S): seq}

    def inv(self, S, k):
        import z3

        from pyvc.sym import SSeq, zint

        g, w, c = S.g, S.g.w, S.ctx
        k = zint(k)
        todo = S.locals[self.target(S)]
        out = [("every stream so far was written", c.same(g.written, k))]
        ok = T(k - w.nf(k))
        out += metrics(w, {"stream_writes": w.base["stream_writes"] + ok, "bytes_written": w.base["bytes_written"] + T(w.bytes(k))})
        if isinstance(todo, SSeq):
            out.append(("as many are listed as failed", T(todo.n + len(todo.tail) == w.nf(k))))
            for idx, item in enumerate(todo.tail):
                sid, stream = item
                out.append(("the failed one is listed", c.And(idx == 0, T(z3.And(w.fails(k - 1), zint(sid) == w.sid(k - 1))),
                                                               stream.i is not None and T(zint(stream.i) == k - 1))))
        return out

    def step_begin(self, S, k, item):
        S.g.w.define(k)
        S.g.flushed = 0

    def step_end(self, S, k):
        import z3

        w, c = S.g.w, S.ctx
        due = T(z3.And(w.flush(k), z3.Or(w.how(k) == OK, w.how(k) == STUCK)))
        c.check("flushed where asked", c.Iff(due, S.g.flushed == 1))
        c.check("at most once", S.g.flushed <= 1)

    def modifies(self, S):
        w, todo = S.g.w, S.locals[self.target(S)]
        return [S.g, w, w.data, w.writer.env, w.writer.env.values, todo, todo.tail] + caches(w)


def caches(w):
    out = []
    for m in (w.writer.streams, w.writer.stream_attrs, w.writer.stream_closers, w.writer.queues):
        out += [m.cache]
    return out


class Removing(LoopSpec):
    """The first j failing streams are gone and reported."""

    name = "removing"
    tag = "failed"

    def havoc(self, S, j):
        from pyvc.sym import SMap, zint

        g, w, c = S.g, S.g.w, S.ctx
        g.reported = c.int("reported", 0)
        havoc_metrics(S, ("stream_count",))
        w.writer.streams, w.writer.stream_closers = w.streams(zint(j)), w.closers(zint(j))
        return {}

    def inv(self, S, j):
        from pyvc.sym import zint

        g, w, c = S.g, S.g.w, S.ctx
        j = zint(j)
        out = [("each failed stream so far was reported", c.same(g.reported, j) if g.handled else True),
               ("exactly the failed streams are removed", c.Iff(w.writer.streams.contains_term(g.probe), T(w.left(j)(g.probe.t)))),
               ("with their closers", c.Iff(w.writer.stream_closers.contains_term(g.probe), T(w.left(j)(g.probe.t))))]
        return out + metrics(w, {"stream_count": w.base["stream_count"] - T(j)})

    def step_begin(self, S, k, item):
        g, w = S.g, S.g.w
        g.current = w.fidx(k)
        g.closings = []

    def step_end(self, S, k):
        g, w, c = S.g, S.g.w, S.ctx
        c.check("a removed stream is closed as asked", c.Iff(T(w.closes(g.current)), len(g.closings) == 1))
        c.check("only that one", len(g.closings) <= 1)
        for s in g.closings:
            c.check("it is the failed one", c.same(s, T(w.sid(g.current))))

    def modifies(self, S):
        w = S.g.w
        out = [S.g, S.g.closings, w, w.data, w.writer.env, w.writer.env.values]
        for m in (w.writer.streams, w.writer.stream_closers, w.writer.stream_attrs):
            out += [m.cache, m.overlay]
        return out

    def frame_ok(self, S, obj, path, lab, old, new):
        return False


class Queueing(LoopSpec):
    """The first k queues got the frame."""

    name = "queueing"
    tag = "queues"

    def inv(self, S, k):
        return [("every queue so far got the frame", S.ctx.same(S.g.queued, k))]

    def havoc(self, S, k):
        S.g.queued = S.ctx.int("queued", 0)
        return {}

    def modifies(self, S):
        return [S.g] + caches(S.g.w)


def make(v, handler=None):
    from vtelem.stream.writer import StreamWriter

    g = v.g
    g.single = False
    g.written = g.queued = g.reported = g.flushed = 0
    g.closings, g.puts = [], []
    g.handled = False
    writer = StreamWriter("out", None, handler, Env())
    g.w = World(v)
    g.w.install(writer)
    return g, g.w, writer


def frame_of(v, g):
    """A finalized frame with any content."""
    from vtelem.classes import DEFAULTS
    from vtelem.channel.framer import build_dummy_frame

    frame = build_dummy_frame(64)
    frame.buffer.data = v.bytes("content")
    size = frame.buffer.data.length()
    v.assume(size <= 65535)
    frame.used = size
    g.frame = frame
    prim = DEFAULTS["count"].value
    g.wire = enc(v, DEFAULTS["count"], size) + frame.buffer.data
    g.total = size + DEFAULTS["count"].value.size
    g.w.total = g.total.t
    return frame


@unit("C19/frame", props="C19", funcs=FUNCS, loops=[Writing, Removing, Queueing], concrete=False,
      opts={"mbqi": False, "branch_ms": 500})
def u_frame(v):
    g = v.g
    kind = v.choose("handler", ["none", "reports", "removes"])

    def handler(stream_id):
        v.check("failures are reported once, for the failed stream", v.And(
            v.same(stream_id, T(g.w.sid(g.w.fidx(zi(g.reported))))), T(zi(g.reported) < g.w.nf(g.w.n))))
        g.reported = g.reported + 1
        if kind == "removes":
            writer.remove_stream(stream_id)

    g, w, writer = make(v, handler if kind != "none" else None)
    g.handled = kind != "none"
    g.probe = v.int("probe")
    frame = frame_of(v, g)
    out = v.outcome(lambda: writer.handle(frame))
    v.check("the writer goes on", out[0] == "ok")
    if out[0] != "ok":
        return
    v.check("every stream was written", v.same(g.written, T(w.n)))
    v.check("every queue was served", v.same(g.queued, T(w.m)))
    v.check("every failure was reported", v.Or(kind == "none", v.same(g.reported, T(w.nf(w.n)))))
    v.check("exactly the working streams remain", v.Iff(writer.streams.contains_term(g.probe), T(w.left(w.nf(w.n))(g.probe.t))))
    v.check("the queues remain", v.Iff(writer.queues.contains_term(g.probe), T(w.hasq(g.probe.t))))
    want = {"stream_writes": w.base["stream_writes"] + T(w.n - w.nf(w.n)), "bytes_written": w.base["bytes_written"] + T(w.bytes(w.n)),
            "stream_count": w.base["stream_count"] - T(w.nf(w.n)), "queue_writes": w.base["queue_writes"] + T(w.m),
            "queue_count": w.base["queue_count"]}
    for name, cond in metrics(w, want):
        v.check(name, cond)
    v.check("nothing stays locked", free(v, writer.lock))


def zi(x):
    from pyvc.sym import zint

    return zint(x)


@unit("C19/streams", props="C19", funcs=FUNCS, concrete=False, opts={"mbqi": False, "branch_ms": 500})
def u_streams(v):
    """Adding and removing one stream among any others."""
    g, w, writer = make(v)
    probe = v.int("probe")
    kind = v.choose("operation", ["add", "semaphore", "remove", "context", "failing context"])
    known = T(w.has(probe.t))
    count = T(w.n)
    free_ = "nothing stays locked"
    if kind == "remove":
        sid = v.int("id")
        call = v.choose("call closer", [True, False])
        was = T(w.has(sid.t))
        out = v.outcome(lambda: writer.remove_stream(sid) if call else writer.remove_stream(sid, False))
        v.check("removing does not fail", out[0] == "ok")
        if out[0] != "ok":
            return
        v.check("tells whether it was there", v.Iff(out[1], was))
        v.check("it is gone, the others are not", v.Iff(writer.streams.contains_term(probe), v.And(known, v.Not(v.same(probe, sid)))))
        v.check("it is closed as asked", v.Iff(v.And(was, call, T(w.closes(w.at(sid.t)))), len(g.closings) == 1))
        v.check("at most once", len(g.closings) <= 1)
        for s in g.closings:
            v.check("only that one", v.same(s, sid))
        left = v.Ite(was, count - 1, count)
        again = v.outcome(lambda: writer.remove_stream(sid))
        v.check("removing again is refused", again[0] == "ok" and v.Not(again[1]))
        v.check("and closes nothing", len(g.closings) <= 1)
    else:
        mine, closed, inside = object(), [], []
        flush = v.bool("flush")
        if kind == "add":
            sid = writer.add_stream(mine, lambda: closed.append(1), flush) if v.choose("closer", [True, False]) \
                else writer.add_stream(mine, flush=flush)
        elif kind == "semaphore":
            sid, sem = writer.add_semaphore_stream(mine)
            flush = False
            v.check("not closed yet", not sem.acquire(False))
        else:
            sid = T(w.next.t)
            has_closer = v.choose("closer", [True, False])

            def body():
                with writer.stream_added(mine, (lambda: closed.append(1)) if has_closer else None, flush):
                    v.check("added while inside", writer.streams.contains_term(sid))
                    v.check("the stream itself", writer.streams.get(sid) is mine)
                    v.check("one more", v.same(writer.env.values["out.stream_count"], count + 1))
                    v.check("flush as asked", v.Iff(writer.stream_attrs[sid]["flush"], flush))
                    inside.append(1)
                    if kind == "failing context":
                        raise KeyError("inside")

            out = v.outcome(body)
            v.check("the context ends as its body does", (out[0] == "ok") == (kind == "context") and (out[0] == "ok" or out[1] is KeyError))
            v.check("the body ran", inside == [1])
            v.check("closed once", closed == ([1] if has_closer else []))
            v.check("gone afterwards", v.Iff(writer.streams.contains_term(probe), known))
            left = count
        if kind in ("add", "semaphore"):
            v.check("a new identifier", v.Not(T(w.has(zi(sid)))))
            v.check("it is there, so are the others", v.Iff(writer.streams.contains_term(probe), v.Or(known, v.same(probe, sid))))
            v.check("the stream itself", writer.streams.get(sid) is mine)
            v.check("flush as asked", v.Iff(writer.stream_attrs[sid]["flush"], flush))
            left = count + 1
            v.check("the metric is exact", v.same(writer.env.values["out.stream_count"], left))
            other = writer.add_stream(object())
            v.check("identifiers differ", v.Not(v.same(other, sid)))
            out = v.outcome(lambda: writer.remove_stream(sid))
            v.check("it can be removed", out[0] == "ok" and out[1])
            v.check("it is gone", v.Not(writer.streams.contains_term(sid)))
            v.check("the newer one is not", writer.streams.contains_term(other))
            if kind == "semaphore":
                v.check("the semaphore was released once", sem.acquire(False) and not sem.acquire(False))
    v.check("the metric is exact in the end", v.same(writer.env.values["out.stream_count"], left))
    v.check("queues are untouched", v.Iff(writer.queues.contains_term(probe), T(w.hasq(probe.t))))
    v.check(free_, free(v, writer.lock))


@unit("C19/queues", props="C19", funcs=FUNCS, concrete=False, opts={"mbqi": False, "branch_ms": 500})
def u_queues(v):
    g, w, writer = make(v)
    g.single = True
    probe = v.int("probe")
    known = T(w.hasq(probe.t))
    count = T(w.m)
    if v.choose("operation", ["add", "remove"]) == "remove":
        qid = v.int("id")
        inject = v.choose("inject", [True, False])
        was = T(w.hasq(qid.t))
        out = v.outcome(lambda: writer.remove_queue(qid) if inject else writer.remove_queue(qid, False))
        v.check("removing does not fail", out[0] == "ok")
        if out[0] != "ok":
            return
        v.check("tells whether it was there", v.Iff(out[1], was))
        v.check("it is gone, the others are not", v.Iff(writer.queues.contains_term(probe), v.And(known, v.Not(v.same(probe, qid)))))
        v.check("the end is signalled as asked", v.Iff(v.And(was, inject), g.puts == [None]))
        v.check("nothing else is put", g.puts in ([], [None]))
        left = v.Ite(was, count - 1, count)
    else:
        class Mine:
            """A queue."""
        mine = Mine()
        qid = writer.add_queue(mine)
        v.check("a new identifier", v.Not(T(w.hasq(zi(qid)))))
        v.check("it is there, so are the others", v.Iff(writer.queues.contains_term(probe), v.Or(known, v.same(probe, qid))))
        v.check("the queue itself", writer.queues.get(qid) is mine)
        other, queue = writer.registered_queue()
        v.check("identifiers differ", v.Not(v.same(other, qid)))
        v.check("registered", writer.queues.get(other) is queue)
        left = count + 2
    v.check("the metric is exact", v.same(writer.env.values["out.queue_count"], left))
    v.check("streams are untouched", v.Iff(writer.streams.contains_term(probe), T(w.has(probe.t))))
    v.check("nothing stays locked", free(v, writer.lock))


class Serving(LoopSpec):
    """The first k elements were handled and accounted for."""

    name = "serving"

    def match_while(self, key, n, locs):
        return key.endswith("QueueDaemon.run")

    def holds(self, S):
        """The local with the element taken, when one is taken ahead."""
        from pyvc.core import Unsupported

        known = getattr(S.cut, "entry", None) or S.cut.locs
        if not hasattr(S.cut, "ahead"):
            S.cut.ahead = S.g.taken == 1
        if S.cut.ahead is not True:
            return None
        names = [n for n in S.cut.names if n in known and (known[n] is None or isinstance(known[n], Elem))]
        if len(names) != 1:
            raise Unsupported("no single element at hand")
        return names[0]

    def havoc(self, S, k):
        g, c = S.g, S.ctx
        name = self.holds(S)
        g.taken, g.handled, g.done = c.int("taken", 0), c.int("handled", 0), c.int("done", 0)
        if name is None:
            return {}
        c.assume(g.taken >= 1)
        c.assume(g.taken <= g.n + 1)
        return {name: g.elem(g.taken - 1)}

    def inv(self, S, k):
        g, c = S.g, S.ctx
        name = self.holds(S)
        if name is None:
            return [("everything taken is handled", c.And(g.taken == g.handled, g.done == g.handled, g.handled >= 0, g.taken <= g.n))]
        elem = S.locals[name]
        last = c.same(g.taken, g.n + 1)
        return [("one element is taken but not handled", c.And(g.taken == g.handled + 1, g.done == g.handled, g.handled >= 0, g.taken <= g.n + 1)),
                ("it is the next one", c.And(c.Iff(elem is None, last), elem is None or c.same(elem.i, g.taken - 1)))]

    def modifies(self, S):
        return [S.g]


class Elem:
    def __init__(self, i):
        self.i = i


@unit("C19/serve", props=["C19", "C20"], funcs=["vtelem.daemon.queue:QueueDaemon.run", "vtelem.daemon.queue:QueueDaemon.__init__"],
      loops=[Serving], concrete=False)
def u_serve(v):
    """A queue daemon handles each element once, in order, until told to stop."""
    from vtelem.daemon.queue import QueueDaemon

    g = v.g
    g.n = v.int("elements", 0)
    g.taken = g.handled = g.done = 0

    def elem(i):
        return None if v.branch(zi(i) == zi(g.n)) else Elem(i)

    g.elem = elem

    class Source:
        """The input queue: n elements, then the signal to stop."""

        def get(self, *_, **__):
            v.check("nothing is taken after the signal to stop", g.taken <= g.n)
            g.taken = g.taken + 1
            return elem(g.taken - 1)

        def task_done(self):
            v.check("only what was handled is done", v.Or(g.done < g.handled, g.taken == g.n + 1))
            g.done = g.done + 1

    def handle(item):
        v.check("each element is handled once, in order", v.same(item.i, g.handled))
        g.handled = g.handled + 1

    daemon = QueueDaemon("queue", Source(), handle)
    out = v.outcome(daemon.run)
    v.check("ends", out[0] == "ok")
    v.check("everything was handled", v.same(g.handled, g.n))
    v.check("everything was accounted for", v.same(g.done, g.n + 1))


class Output:
    """A stream of a concrete run."""

    def __init__(self, how):
        self.how, self.data, self.calls, self.flushes, self.left = how, bytearray(), 0, 0, None

    def write(self, data):
        self.calls += 1
        if self.left is not None:
            self.left -= 1
        if self.left is not None and self.left <= 0:
            if self.how == "short":
                self.data += data[:1]
                return 1
            if self.how == "none":
                return None
            if self.how == "error":
                raise OSError(32, "broken pipe")
            if self.how == "closed":
                raise ValueError("write to closed file")
        self.data += data
        return len(data)

    def flush(self):
        self.flushes += 1
        if self.how == "flush" and self.left is not None and self.left <= 0:
            raise BrokenPipeError("flush")


@search("C19")
def search_writer(v):
    """Any history of outputs coming, failing and going."""
    import io
    import os
    import queue as _q
    import tempfile

    from vtelem.channel.framer import build_dummy_frame
    from vtelem.stream.writer import QueueClientManager, StreamWriter

    reported = []
    env = environment(v)
    kind = v.choose("handler", ["none", "reports", "removes"])

    def handler(stream_id):
        reported.append(stream_id)
        if kind == "removes":
            writer.remove_stream(stream_id)

    writer = StreamWriter("out", _q.Queue(), None if kind == "none" else handler, env)
    clients = QueueClientManager("clients", writer)
    streams, queues, closed, gone, gone_q = {}, {}, [], {}, {}
    want_fail, writes, nbytes, puts, managed = [], 0, 0, 0, []

    def metric(name):
        return env.get_metric("out." + name) if env.has_metric("out." + name) else 0

    for step in range(v.int("steps", 1, 30)):
        op = v.choose("op", ["add", "add", "bytes", "closed file", "queue", "client", "frame", "frame", "frame", "fail", "remove", "remove queue",
                             "bad", "close clients", "file"])
        if op == "add":
            out = Output(v.choose("how", ["short", "none", "error", "closed", "flush"]))
            flush = v.bool("flush")
            sid = writer.add_stream(out, lambda n=step: closed.append(n), flush)
            v.check("new identifier", sid not in streams and sid not in gone)
            streams[sid] = [out, bytearray(), flush, step]
        elif op == "bytes":
            out = io.BytesIO()
            sid = writer.add_stream(out)
            streams[sid] = [out, bytearray(), False, None]
        elif op == "closed file":
            out = io.BytesIO()
            sid = writer.add_stream(out)
            out.close()
            streams[sid] = [out, bytearray(), False, None]
        elif op == "queue":
            qid, q = writer.registered_queue()
            queues[qid] = [q, []]
        elif op == "client":
            qid, q = clients.add_client_queue()
            queues[qid] = [q, []]
            managed.append(qid)
        elif op == "fail" and streams:
            out = streams[v.choose("which", sorted(streams))][0]
            if isinstance(out, Output):
                out.left = v.int("in", 1, 2)
        elif op == "remove" and streams:
            sid = v.choose("which", sorted(streams))
            call = v.bool("call")
            before = len(closed)
            v.check("removed", writer.remove_stream(sid, call))
            v.check("closer", len(closed) == before + (1 if call and streams[sid][3] is not None else 0))
            gone[sid] = streams.pop(sid)
        elif op == "remove queue" and queues:
            qid = v.choose("which", sorted(queues))
            inject = v.bool("inject")
            v.check("removed", writer.remove_queue(qid, inject))
            q = gone_q[qid] = queues.pop(qid)
            if inject:
                q[1].append(None)
        elif op == "bad":
            v.check("unknown stream", not writer.remove_stream(1000 + step))
            v.check("unknown queue", not writer.remove_queue(1000 + step))
        elif op == "close clients":
            n = clients.close_clients()
            here = [q for q in managed if q in queues]
            v.check("number of closed clients", n == len(here))
            for qid in here:
                q = gone_q[qid] = queues.pop(qid)
                q[1].append(None)
        elif op == "file":
            with tempfile.TemporaryDirectory() as tmp:
                from pathlib import Path

                path = Path(tmp) / "out"
                path.write_bytes(b"old")
                append = v.bool("append")
                frame = build_dummy_frame(64)
                size_before = metric("stream_count")
                with writer.add_file(path, v.bool("flush"), append):
                    v.check("one more stream", metric("stream_count") == size_before + 1)
                v.check("one less stream", metric("stream_count") == size_before)
                v.check("file is kept or replaced", path.read_bytes() == (b"old" if append else b""))
                _ = os, frame
        elif op == "frame":
            frame = build_dummy_frame(v.int("mtu", 32, 200))
            data, size = frame.raw
            wire = size.to_bytes(4, "big") + bytes(data)
            before = {s: (x[0].calls if isinstance(x[0], Output) else 0) for s, x in streams.items()}
            del reported[:]
            out = v.outcome(lambda: writer.handle(frame))
            v.check("the writer goes on", out[0] == "ok")
            if out[0] != "ok":
                return
            failed = []
            for sid, x in sorted(streams.items()):
                o = x[0]
                if isinstance(o, Output):
                    v.check("written once", o.calls == before[sid] + 1)
                    bad = o.left is not None and o.left <= 0 and (o.how != "flush" or x[2])
                else:
                    bad = o.closed
                if bad:
                    failed.append(sid)
                    continue
                x[1].extend(wire)
                writes, nbytes = writes + 1, nbytes + len(wire)
                got = bytes(o.data) if isinstance(o, Output) else o.getvalue()
                v.check("the stream holds every frame", got == bytes(x[1]))
            v.check("failures are reported once", kind == "none" or sorted(reported) == failed)
            for sid in failed:
                v.check("failed streams are removed", sid not in writer.streams)
                gone[sid] = streams.pop(sid)
                if gone[sid][3] is not None:
                    v.check("and closed once", closed.count(gone[sid][3]) == 1)
            for x in queues.values():
                x[1].append(frame)
                puts += 1
        calls = {s: x[0].calls for s, x in gone.items() if isinstance(x[0], Output)}
        for s, n in calls.items():
            old = gone[s][4] if len(gone[s]) > 4 else n
            if len(gone[s]) <= 4:
                gone[s].append(n)
            v.check("removed streams receive nothing", n == old)
        for q, want in list(queues.values()) + list(gone_q.values()):
            v.check("queues hold every frame", len(q.queue) == len(want) and all(a is b for a, b in zip(q.queue, want)))
        for name, want in (("stream_writes", writes), ("bytes_written", nbytes), ("queue_writes", puts), ("stream_count", len(streams)),
                           ("queue_count", len(queues))):
            v.check("metric %s is exact" % name, metric(name) == want)
