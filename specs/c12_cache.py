"""C12: fragments in any order make up the message, which is delivered once."""
from pyvc.api import contract, search, unit
from pyvc.loops import LoopSpec

from .c19_writer import T, zi

M = "vtelem.message.cache:MessageCache."
DISP = "vtelem.message.cache:MessageDispatcher."
FUNCS = [M + n for n in ("__init__", "initialize_types", "store_fragment", "content", "content_str", "ingest", "complete", "service_all_callbacks")] + [
    DISP + n for n in ("__init__", "add_callback", "service_callbacks")] + ["vtelem.frame.fields:to_parsed"]
OPTS = {"mbqi": False, "branch_ms": 500}


class Disk:
    """Files, as the cache sees them: what is in each one, whole or not."""

    def __init__(self, v, final):
        self.v, self.final = v, final
        self.files, self.dirs, self.done = [], [], []
        disk = self

        class Path:
            """os.path"""

            sep = "/"

            @staticmethod
            def join(a, *more):
                for b in more:
                    a = a + "/" + b
                return a

            exists = isfile = staticmethod(lambda p: any(disk.is_same(p, d) for d in disk.dirs))

        self.path, self.sep = Path, "/"

    def is_same(self, a, b):
        from pyvc.sym import same, zb

        return self.v.branch(zb(same(a, b)))

    def makedirs(self, path, mode=0o777, exist_ok=False):
        self.v.check("a directory that may be there already", exist_ok is True)
        self.dirs.append(path)

    def replace(self, src, dst):
        hit = [f for f in self.files if f.name is src or self.is_same(f.name, src)]
        self.v.check("a file that was written takes its place", len(hit) == 1 and hit[0].closed)
        if len(hit) == 1:
            self.arrive(dst, hit[0])

    rename = replace

    def fsync(self, *_):
        pass

    def arrive(self, path, file):
        v = self.v
        where, what = self.final()
        v.check("the fragment gets its own file", v.same(path, where))
        v.check("with all of its bytes", file.data is not None and v.same(file.data, what))
        self.done.append(path)

    def open(self, name, mode="r", *_, **__):
        disk, v = self, self.v
        v.check("files hold bytes", mode in ("wb", "w+b", "xb"))
        v.check("no incomplete fragment is ever found", v.Not(v.same(name, self.final()[0])))
        v.check("in a directory that is there", any(disk.is_same(d + "/", part) for d in disk.dirs for part in [self.folder(name)]))

        class File:
            """One file being written."""

            closed, data = False, None

            def __init__(self):
                self.name = name

            def __enter__(self):
                return self

            def __exit__(self, *_):
                self.closed = True

            def write(self, data):
                v.check("all at once", self.data is None)
                self.data = data
                return v.call(len, data)

            def flush(self):
                pass

            def fileno(self):
                return 3

            def close(self):
                self.closed = True

        res = File()
        self.files.append(res)
        return res

    def folder(self, name):
        """The directory of the fragment, when the file is in it."""
        where = self.final_dir + "/"
        self.v.check("next to its final place", name.startswith(where) if not isinstance(name, str) else False)
        return where


class World:
    """A cache with any messages, and any fragments of them.

    All fragments of one type and checksum come from one message: total(c) of
    them, fragment i being size(c, i) bytes. have(c, i): it is stored; cnt(c)
    is the number of those. A message found complete has all of them.
    """

    def __init__(self, v):
        import shutil
        import tempfile

        import z3

        from pyvc.sym import SBytes, SMap, mk, zstr, INTOF, SSeq
        from vtelem.message.cache import MessageCache
        from vtelem.types.frame import MessageType

        self.v, g = v, v.g
        I, B, S = z3.IntSort(), z3.BoolSort(), z3.StringSort()
        F = lambda nm, *s: z3.Function(v.fresh_name(nm), *s)
        self.total, self.cnt, self.have = F("total", I, I), F("cnt", I, I), F("have", I, I, B)
        self.known, self.stored, self.done = F("known", I, B), F("stored", I, B), F("done", I, B)
        self.counted, self.number = F("counted", I, I), F("number", I, I)
        self.size, self.byte = F("size", I, I, I), F("byte", I, I, I, I)
        self.off, self.full = F("offset", I, I, I), F("full", I, I, I)
        self.mtype = v.choose("type", list(MessageType))
        scratch = tempfile.mkdtemp(prefix="vc12")
        try:
            self.cache = MessageCache(scratch + "/cache")
        finally:
            shutil.rmtree(scratch)
        self.cache.fragment_dir = self.dir = "/scratch/cache_fragments"
        self.data = SMap(lambda s: mk(self.known(INTOF(zstr(s)))), lambda s: self.entry(INTOF(zstr(s))), name="messages")
        self.store = SMap(lambda c: mk(self.stored(zi(c))), lambda c: self.fragments(zi(c)), name="fragments")
        for mtype in MessageType:
            if mtype is self.mtype:
                self.cache.data[str(mtype.value)] = self.data
                self.cache.fragment_data[mtype.value] = self.store
            else:
                # anything else is out of reach
                self.cache.data[str(mtype.value)] = self.cache.fragment_data[mtype.value] = None
        self.n = v.int("callbacks", 0)
        self.cache.message_callbacks[self.mtype] = SSeq(self.n.t, self.callback, tag="callbacks")
        for mtype in MessageType:
            if mtype is not self.mtype:
                self.cache.message_callbacks[mtype] = [self.wrong]
        g.w = self
        g.called = 0
        g.want = None

    def wrong(self, *_):
        self.v.check("no consumer of another type is called", False)

    def callback(self, i):
        i = zi(i)

        def fn(mtype, number, data):
            v, g = self.v, self.v.g
            v.check("consumers are called for a complete message only", g.want is not None)
            if g.want is None:
                return
            c, num = g.want
            v.check("each consumer is called once, in turn", v.same(g.called, T(i)))
            g.called = g.called + 1
            v.check("with the type", mtype is self.mtype)
            v.check("the number", v.same(number, num))
            v.check("and exactly the original", v.same(data, self.original(c)))
        return fn

    def fragment(self, c, i):
        from pyvc.sym import SBytes

        i = zi(i)
        self.v.add(self.size(c, i) >= 0)
        return SBytes(self.size(c, i), lambda j: self.byte(c, i, j), "bytes")

    def original(self, c):
        import z3

        from pyvc.sym import SBytes

        # the original starts with fragment 0
        j = z3.Int(self.v.fresh_name("j"))
        self.v.add(self.off(c, 1) == self.size(c, 0))
        self.v.add(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.size(c, 0)), self.full(c, j) == self.byte(c, 0, j)), patterns=[self.full(c, j)]))
        return SBytes(self.off(c, self.total(c)), lambda j: self.full(c, j), "bytes")

    def sane(self, c):
        """What holds for every message (see Counting and Finding)."""
        import z3

        v = self.v
        t, n = self.total(c), self.cnt(c)
        i = z3.Int(v.fresh_name("i"))
        v.add(z3.And(t >= 1, n >= 0, n <= t, self.off(c, 0) == 0))
        v.add(z3.ForAll([i], z3.Implies(self.have(c, i), z3.And(self.stored(c), i >= 0, i < t)), patterns=[self.have(c, i)]))
        v.add(z3.ForAll([i], z3.Implies(z3.And(n == t, i >= 0, i < t), self.have(c, i)), patterns=[self.have(c, i)]))
        v.add(z3.Implies(self.done(c), z3.And(self.known(c), n == t, self.counted(c) == t)))
        v.add(z3.Implies(z3.Not(self.stored(c)), n == 0))

    def one_more(self, c, idx):
        """With fragment idx, too: all are there when the number is total."""
        import z3

        v = self.v
        i = z3.Int(v.fresh_name("i"))
        v.add(z3.Implies(z3.Not(self.have(c, idx)), z3.And(self.cnt(c) + 1 <= self.total(c), z3.ForAll(
            [i], z3.Implies(z3.And(self.cnt(c) + 1 == self.total(c), i >= 0, i < self.total(c), i != idx), self.have(c, i)), patterns=[self.have(c, i)]))))

    def entry(self, c):
        from pyvc.sym import mk

        v = self.v
        self.sane(c)
        res = v.call(dict)
        res["fragments"] = mk(self.counted(c))
        if v.branch(self.done(c)):
            res["complete"] = True
            res["number"] = mk(self.number(c))
        else:
            res["complete"] = False
        return res

    def fragments(self, c):
        from pyvc.sym import SMap, mk

        self.sane(c)
        return SMap(lambda i: mk(self.have(c, zi(i))), lambda i: self.fragment(c, i), n=self.cnt(c), name="fragments of one")

    def run(self, fn):
        """With the disk of the contract."""
        import vtelem.message.cache as m

        had = "open" in vars(m)
        old_os = m.os
        m.os, m.open = self.disk, self.disk.open
        try:
            return self.v.outcome(fn)
        finally:
            m.os = old_os
            if not had:
                del m.open


class Joining(LoopSpec):
    """The first k fragments are joined."""

    name = "joining"

    def match_for(self, seq, key, n):
        from pyvc.sym import SRange

        return isinstance(seq, SRange)

    @staticmethod
    def target(S):
        from pyvc.core import Unsupported
        from pyvc.sym import SBytes

        names = [n for n, x in S.locals.items() if not n.startswith("_vc") and isinstance(x, SBytes) and x.kind == "bytearray"]
        if len(names) != 1:
            raise Unsupported("no single buffer")
        return names[0]

    def so_far(self, S, k):
        from pyvc.sym import SBytes

        g, w = S.g, S.g.w
        return SBytes(w.off(g.crc, k), lambda j: w.full(g.crc, j), "bytearray")

    def inv(self, S, k):
        import z3

        g, w, c = S.g, S.g.w, S.ctx
        buf = S.locals[self.target(S)]
        j = z3.Int(c.fresh_name("j"))
        k0 = z3.simplify(zi(k) - 1)
        # the original is its fragments, one after the other
        c.add(z3.Implies(z3.And(w.off(g.crc, k0) <= j, j < w.off(g.crc, zi(k))), w.full(g.crc, j) == w.byte(g.crc, k0, j - w.off(g.crc, k0))))
        return [("the length so far", c.And(c.same(T(buf.n), T(w.off(g.crc, zi(k)))), T(buf.n >= 0))),
                ("the bytes so far", T(z3.Implies(z3.And(j >= 0, j < w.off(g.crc, zi(k))), buf.f(j) == w.full(g.crc, j))))]

    def havoc(self, S, k):
        return {self.target(S): self.so_far(S, k)}

    def step_begin(self, S, k, item):
        g, w, c = S.g, S.g.w, S.ctx
        c.add(w.size(g.crc, k) >= 0)
        c.add(w.off(g.crc, k + 1) == w.off(g.crc, k) + w.size(g.crc, k))

    def modifies(self, S):
        return [S.locals[self.target(S)]]


class Calling(LoopSpec):
    """The first k consumers were called."""

    name = "consumers"
    tag = "callbacks"

    def inv(self, S, k):
        return [("each consumer so far was called", S.ctx.same(S.g.called, k))]

    def havoc(self, S, k):
        S.g.called = S.ctx.int("called", 0)
        return {}

    def modifies(self, S):
        return [S.g]


def a_frame(w, c, idx, number):
    from vtelem.types.frame import FrameFooter, FrameHeader, FrameType, ParsedFrame

    body = {"message_type": w.mtype.value, "message_number": number, "message_crc": c, "fragment_index": idx,
            "total_fragments": T(w.total(zi(c))), "fragment_bytes": w.fragment(zi(c), idx)}
    return ParsedFrame(FrameHeader(0, 0, FrameType.MESSAGE, 0, 0), body, FrameFooter(None))


def found(w, c):
    """What the cache now says about a message: (known, complete, counted, number)"""
    from pyvc.sym import SMap, SStr, TOSTR_I, INTOF

    w.v.add(INTOF(TOSTR_I(zi(c))) == zi(c))
    hit = w.data.lookup(SStr(TOSTR_I(zi(c))))
    return None if hit is SMap.MISSING else hit


def fragment_of(w, c, i):
    """The stored fragment, or None."""
    from pyvc.runtime import dict_find, real
    from pyvc.sym import SMap

    frags = w.store.lookup(c)
    if frags is SMap.MISSING:
        return None
    frags = real(frags)
    if isinstance(frags, SMap):
        hit = frags.lookup(i)
        return None if hit is SMap.MISSING else hit
    hit = dict_find(frags, i)
    return None if hit is None else frags[hit[0]]


@unit("C12/ingest", props="C12", funcs=FUNCS, loops=[Joining, Calling], concrete=False, opts=OPTS, weight=2)
def u_ingest(v):
    """Any fragment, in any state of the cache."""
    from pyvc.sym import SMap, SStr, TOSTR_I

    g = v.g
    w = World(v)
    c, idx, number = v.int("crc", 0, 2 ** 32 - 1), v.int("index", 0), v.int("number", 0)
    other, probe = v.int("other crc", 0, 2 ** 32 - 1), v.int("probe", 0)
    g.crc = zi(c)
    w.sane(g.crc)
    w.sane(zi(other))
    w.one_more(g.crc, zi(idx))
    v.assume(T(zi(idx) < w.total(g.crc)))
    was_done = v.branch(w.done(g.crc))
    had = v.branch(w.have(g.crc, zi(idx)))
    after = T(w.cnt(g.crc)) + (0 if had else 1)
    now_done = not was_done and v.branch(v.same(after, T(w.total(g.crc))).t)
    g.want = (g.crc, number) if now_done else None
    w.disk = Disk(v, lambda: (w.disk.final_dir + "/" + SStr(TOSTR_I(zi(idx))), w.fragment(g.crc, idx)))
    w.disk.final_dir = w.dir + "/" + str(w.mtype.value) + "/" + SStr(TOSTR_I(g.crc))
    out = w.run(lambda: w.cache.ingest(a_frame(w, c, idx, number)))
    v.check("does not fail", out[0] == "ok")
    if out[0] != "ok":
        return
    look = v.choose("look at", ["the message", "its fragments", "other messages"])
    if look == "the message":
        ingested(v, w, c, idx, number, was_done, now_done, had)
    elif look == "its fragments":
        fragments_after(v, w, c, idx, probe, was_done, now_done)
    elif not v.branch(v.same(other, c).t):
        others_after(v, w, other, probe)


def ingested(v, w, c, idx, number, was_done, now_done, had):
    """The message a fragment arrived for."""
    g = v.g
    got = found(w, c)
    v.check("the message is known", got is not None)
    if got is None:
        return
    v.check("complete exactly when every fragment is there", v.Iff(got["complete"], was_done or now_done))
    v.check("delivered exactly when it becomes complete, once", v.same(g.called, w.n if now_done else 0))
    if was_done or now_done:
        v.check("its number is the one announced", v.same(got["number"], number))
        v.check("its fragments are counted", v.same(got["fragments"], T(w.total(g.crc))))
    here = fragment_of(w, c, idx)
    v.check("the fragment is there", here is not None and v.same(here, w.fragment(g.crc, idx)))
    v.check("and on disk", len(w.disk.done) == (0 if had else 1))


def fragments_after(v, w, c, idx, probe, was_done, now_done):
    """Any fragment of that message."""
    g = v.g
    there = fragment_of(w, c, probe)
    if v.branch(v.same(probe, idx).t):
        v.check("it is its own", there is not None)
    elif v.branch(w.have(g.crc, zi(probe))):
        v.check("other fragments stay", there is not None and v.same(there, w.fragment(g.crc, probe)))
    else:
        v.check("none appears from nowhere", there is None)
        v.check("a complete message misses none", v.Or(v.Not(v.Or(was_done, now_done)), T(zi(probe) >= w.total(g.crc))))


def others_after(v, w, other, probe):
    """Any other message."""
    got = found(w, other)
    v.check("other messages stay known or unknown", v.Iff(got is not None, T(w.known(zi(other)))))
    if got is not None:
        v.check("as complete as they were", v.Iff(got["complete"], T(w.done(zi(other)))))
        v.check("with their count", v.same(got["fragments"], T(w.counted(zi(other)))))
        if got["complete"] is True:
            v.check("and number", v.same(got["number"], T(w.number(zi(other)))))
    there = fragment_of(w, other, probe)
    v.check("and their fragments", v.Iff(there is not None, T(w.have(zi(other), zi(probe)))))
    if there is not None:
        v.check("as they were", v.same(there, w.fragment(zi(other), probe)))


@unit("C12/content", props="C12", funcs=FUNCS, loops=[Joining], concrete=False, opts=OPTS)
def u_content(v):
    """The content is there when complete, and the original."""
    g = v.g
    w = World(v)
    c = v.int("crc", 0, 2 ** 32 - 1)
    g.crc = zi(c)
    w.sane(g.crc)
    w.disk = Disk(v, None)
    sizes = (len(w.data.overlay), len(w.store.overlay))
    out = w.run(lambda: w.cache.content(w.mtype, c))
    v.check("does not fail", out[0] == "ok")
    if out[0] != "ok":
        return
    v.check("looking changes nothing", sizes == (len(w.data.overlay), len(w.store.overlay)))
    if not v.branch(w.done(g.crc)):
        v.check("nothing before it is complete", out[1] is None)
        return
    v.check("there is content", isinstance(out[1], tuple) and len(out[1]) == 2)
    if not isinstance(out[1], tuple):
        return
    v.check("of the number announced", v.same(out[1][0], T(w.number(g.crc))))
    v.check("exactly the original", v.same(out[1][1], w.original(g.crc)))


@unit("C12/counting", props="C12", concrete=False)
def u_counting(v):
    """The lemmas of World: a set of k of the numbers below k is all of them.

    By induction over k: count(k + 1) = count(k) + (1 if k is in the set).
    """
    import z3

    I, B = z3.IntSort(), z3.BoolSort()
    have, more = z3.Function("have", I, B), z3.Function("have_more", I, B)
    n, m = z3.Function("count", I, I), z3.Function("count_more", I, I)
    k, i, x = v.int("k", 0), v.int("i"), v.int("x", 0)
    k, i, x = zi(k), zi(i), zi(x)
    # the second set is the first one and x
    v.assume(T(z3.Not(have(x))))
    j = z3.Int("j")
    v.add(z3.ForAll([j], more(j) == z3.Or(have(j), j == x)))
    for fn, mem in ((n, have), (m, more)):
        v.add(fn(0) == 0)
        v.add(fn(k + 1) == fn(k) + z3.If(mem(k), 1, 0))
    bound = lambda fn, k: z3.And(fn(k) >= 0, fn(k) <= k)
    everything = lambda fn, mem, k: z3.Implies(fn(k) == k, z3.Implies(z3.And(i >= 0, i < k), mem(i)))
    step = lambda k: m(k) == n(k) + z3.If(x < k, 1, 0)
    for name, fn, mem in (("set", n, have), ("set and one more", m, more)):
        v.check("%s: at most k, at 0" % name, T(bound(fn, 0)))
        v.check("%s: full when k, at 0" % name, T(everything(fn, mem, 0)))
        if v.choose("hypothesis of %s" % name, [True]):
            v.assume(T(bound(fn, k)))
            v.assume(T(everything(fn, mem, k)))
        v.check("%s: at most k" % name, T(bound(fn, k + 1)))
        v.check("%s: full when k" % name, T(everything(fn, mem, k + 1)))
    v.check("one more counts one more, at 0", T(step(0)))
    v.assume(T(step(k)))
    v.check("one more counts one more", T(step(k + 1)))
    # the other direction: a full set counts k
    v.assume(T(z3.Implies(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), have(j))), n(k) == k)))
    v.check("all of them are k", T(z3.Implies(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k + 1), have(j))), n(k + 1) == k + 1)))


# -- all complete messages ----------------------------------------------------
class Listing(World):
    """The same, with the messages in any order: key(0..count-1)."""

    def __init__(self, v):
        import z3

        from pyvc.sym import SStr, TOSTR_I, INTOF

        super().__init__(v)
        I = z3.IntSort()
        F = lambda nm, *s: z3.Function(v.fresh_name(nm), *s)
        self.key, self.at, self.nc, self.nth = F("key", I, I), F("at", I, I), F("complete", I, I), F("nth", I, I)
        self.count = v.int("messages", 0).t
        i = z3.Int(v.fresh_name("i"))
        inside = z3.And(i >= 0, i < self.count)
        v.add(z3.ForAll([i], z3.Implies(inside, z3.And(self.known(self.key(i)), self.at(self.key(i)) == i, self.key(i) >= 0)), patterns=[self.key(i)]))
        v.add(self.nc(0) == 0)

        def name(k):
            k = zi(k)
            v.add(INTOF(TOSTR_I(self.key(k))) == self.key(k))
            return SStr(TOSTR_I(self.key(k)))

        self.data.keys_seq, self.data.n, self.data.tag = name, self.count, "messages"


class Choosing(LoopSpec):
    """Those of the first k messages that are complete are listed."""

    name = "messages"
    tag = "messages"

    def target(self, S):
        from pyvc.core import Unsupported
        from pyvc.sym import SSeq

        names = [n for n, x in S.locals.items() if not n.startswith("_vc") and (
            (isinstance(x, list) and not x) or (isinstance(x, SSeq) and x.tag == "complete"))]
        if len(names) != 1:
            raise Unsupported("no single list of messages")
        return names[0]

    def havoc(self, S, k):
        from pyvc.sym import SInt, SSeq

        w = S.g.w
        return {self.target(S): SSeq(w.nc(k), lambda j: SInt(w.key(w.nth(zi(j)))), tag="complete")}

    def inv(self, S, k):
        from pyvc.sym import SSeq

        w, c, k = S.g.w, S.ctx, zi(k)
        seq = S.locals[self.target(S)]
        if not isinstance(seq, SSeq):
            return []
        out = [("as many as are complete", T(seq.n + len(seq.tail) == w.nc(k)))]
        for item in seq.tail:
            out.append(("the complete one is listed", c.And(len(seq.tail) == 1, T(w.done(w.key(k - 1))), c.same(item, T(w.key(k - 1))))))
        return out

    def step_begin(self, S, k, item):
        import z3

        w, c = S.g.w, S.ctx
        c.add(w.nc(k + 1) == w.nc(k) + z3.If(w.done(w.key(k)), 1, 0))
        c.add(w.nc(k) >= 0)

    def modifies(self, S):
        w, seq = S.g.w, S.locals[self.target(S)]
        return [S.g, seq, getattr(seq, "tail", None), w.data.cache]


@unit("C12/complete", props="C12", funcs=FUNCS, loops=[Choosing], concrete=False, opts=OPTS)
def u_complete(v):
    """The complete messages are listed: those, all of them, in order."""
    from pyvc.sym import SSeq

    w = Listing(v)
    w.disk = Disk(v, None)
    out = w.run(lambda: w.cache.complete(w.mtype))
    v.check("does not fail", out[0] == "ok")
    if out[0] != "ok":
        return
    seq = out[1]
    v.check("the list made", isinstance(seq, SSeq) and not seq.tail and seq.tag == "complete")
    if isinstance(seq, SSeq):
        v.check("has them all", T(seq.n == w.nc(w.count)))
    v.check("looking changes nothing", not w.data.overlay)


@contract(M + "complete", by="C12/complete")
def c_complete(v, self, mtype):
    """As verified by C12/complete: the j-th is nth(j)."""
    import z3

    from pyvc.sym import SInt, SSeq

    g, w = v.g, getattr(v.g, "w", None)
    if w is None:
        return []
    v.check("of this cache", self is w.cache)
    if mtype is not w.mtype:
        return []
    return SSeq(g.m, lambda j: SInt(w.key(w.nth(zi(j)))), tag="complete")


@contract(M + "content", by="C12/content")
def c_content(v, self, mtype, crc):
    """As verified by C12/content."""
    from pyvc.sym import SBytes

    g, w = v.g, v.g.w
    v.check("of this cache and type", self is w.cache and mtype is w.mtype)
    v.check("one after the other", v.same(crc, T(w.key(w.nth(zi(g.round))))))
    v.check("once", g.want is None)
    c = w.key(w.nth(zi(g.round)))
    g.want = (c, T(w.number(c)))
    data = w.original(c)
    return (T(w.number(c)), SBytes(data.n, data.f, "bytearray"))


class Delivering(LoopSpec):
    """The first k complete messages were delivered."""

    name = "delivering"
    tag = "complete"

    def inv(self, S, k):
        return [("each complete one so far is delivered", S.ctx.same(S.g.round, k)), ("and nothing else", S.g.want is None)]

    def havoc(self, S, k):
        S.g.round = T(k)
        return {}

    def step_begin(self, S, k, item):
        S.g.called = 0

    def step_end(self, S, k):
        g, c = S.g, S.ctx
        c.check("every consumer got it", c.And(g.want is not None, c.same(g.called, g.w.n)))
        g.want = None
        g.round = g.round + 1

    def modifies(self, S):
        return [S.g]


@unit("C12/reload", props="C12", funcs=FUNCS, uses=[M + "complete", M + "content"], loops=[Delivering, Calling], concrete=False, opts=OPTS)
def u_reload(v):
    """A cache that starts delivers what is complete, to every consumer."""
    g = v.g
    w = Listing(v)
    g.m, g.round = v.int("complete", 0).t, 0
    w.disk = Disk(v, None)
    out = w.run(lambda: w.cache.service_all_callbacks())
    v.check("does not fail", out[0] == "ok")
    if out[0] != "ok":
        return
    v.check("every complete message was delivered", v.same(g.round, T(g.m)))


# -- fragments on disk --------------------------------------------------------
class Tree:
    """The directory of fragments: any checksums, any fragments of each, and
    files that were not finished."""

    def __init__(self, v, w):
        import z3

        self.v, self.w = v, w
        I, B = z3.IntSort(), z3.BoolSort()
        F = lambda nm, *s: z3.Function(v.fresh_name(nm), *s)
        self.crc, self.at, self.files = F("crc", I, I), F("place", I, I), F("files", I, I)
        self.idx, self.fat, self.part = F("idx", I, I, I), F("file", I, I, I), F("unfinished", I, I, B)
        self.n = v.int("checksums", 0).t
        i, j = z3.Int(v.fresh_name("i")), z3.Int(v.fresh_name("j"))
        v.add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n), z3.And(self.at(self.crc(i)) == i, self.crc(i) >= 0)), patterns=[self.crc(i)]))
        v.add(z3.ForAll([i], self.files(i) >= 0, patterns=[self.files(i)]))
        v.add(z3.ForAll([i, j], z3.Implies(z3.And(j >= 0, j < self.files(i), z3.Not(self.part(i, j))), z3.And(
            self.idx(i, j) >= 0, self.fat(i, self.idx(i, j)) == j)), patterns=[self.idx(i, j)]))
        self.others = v.choose("other types", [False, True])
        tree = self

        class Path:
            """os.path"""

            sep = "/"

            @staticmethod
            def join(a, *more):
                for b in more:
                    a = a + "/" + b
                return a

        self.path, self.sep = Path, "/"
        self.round = None

    def makedirs(self, *_, **__):
        pass

    def listdir(self, path):
        from pyvc.sym import SSeq, SStr, TOSTR_I, INTOF

        v, w = self.v, self.w
        if isinstance(path, str):
            if path == w.dir:
                more = [str(t.value) for t in type(w.mtype) if t is not w.mtype] if self.others else []
                return more[:1] + [str(w.mtype.value)] + more[1:]
            if path != w.dir + "/" + str(w.mtype.value):
                v.check("inside the directory", path.startswith(w.dir + "/"))
                return []

            def folder(i):
                i = zi(i)
                v.add(INTOF(TOSTR_I(self.crc(i))) == self.crc(i))
                return SStr(TOSTR_I(self.crc(i)))

            return SSeq(self.n, folder, tag="folders")
        i = self.round
        v.check("of the checksum at hand", v.same(path, w.dir + "/" + str(w.mtype.value) + "/" + SStr(TOSTR_I(self.crc(i)))))
        return SSeq(self.files(i), lambda j: self.name(i, zi(j)), tag="files")

    def name(self, i, j):
        import z3

        from pyvc.sym import SStr, TOSTR_I, INTOF, ISDIGIT

        v = self.v
        num = TOSTR_I(self.idx(i, j))
        v.add(z3.And(INTOF(num) == self.idx(i, j), ISDIGIT(num), z3.Not(z3.SuffixOf(z3.StringVal(".part"), num)), z3.Not(z3.Contains(num, z3.StringVal(".")))))
        if v.branch(self.part(i, j)):
            res = z3.Concat(num, z3.StringVal(".part"))
            v.add(z3.Not(ISDIGIT(res)))
            return SStr(res)
        return SStr(num)

    def open(self, name, mode="r", *_, **__):
        from pyvc.sym import SStr, TOSTR_I

        tree, v, w = self, self.v, self.w
        i, j = self.round, v.g.file
        v.check("fragments are bytes", mode == "rb")
        v.check("only finished fragments are read", v.Not(T(self.part(i, j))))
        v.check("the file at hand", v.same(name, w.dir + "/" + str(w.mtype.value) + "/" + SStr(TOSTR_I(self.crc(i))) + "/" + SStr(TOSTR_I(self.idx(i, j)))))

        class File:
            """An open fragment."""

            def __enter__(self):
                return self

            def __exit__(self, *_):
                pass

            def read(self, *_):
                return w.fragment(tree.crc(i), tree.idx(i, j))

        return File()

    # which fragments are there
    def has(self, i, x, upto):
        import z3

        return z3.And(self.fat(i, x) >= 0, self.fat(i, x) < upto, z3.Not(self.part(i, self.fat(i, x))), self.idx(i, self.fat(i, x)) == x)

    def loaded(self, i, upto):
        """The fragments of checksum i, from its first files."""
        from pyvc.sym import SMap, mk

        return SMap(lambda x: mk(self.has(i, zi(x), upto)), lambda x: self.w.fragment(self.crc(i), zi(x)), name="loaded")

    def holds(self, c, upto):
        import z3

        return z3.And(self.at(c) >= 0, self.at(c) < upto, self.crc(self.at(c)) == c)


def seen(maps, c):
    """What a mapping made by the code now has for a key, or None."""
    from pyvc.runtime import dict_find, real
    from pyvc.sym import SMap

    maps = real(maps)
    if isinstance(maps, SMap):
        hit = maps.lookup(c)
        return None if hit is SMap.MISSING else hit
    hit = dict_find(maps, c)
    return None if hit is None else maps[hit[0]]


class Folders(LoopSpec):
    """The fragments of the first k checksums are loaded."""

    name = "folders"
    tag = "folders"

    def store(self, S):
        w = S.g.w
        return w.cache.fragment_data[w.mtype.value]

    def inv(self, S, k):
        t, c = S.g.tree, S.ctx
        if not c.opts.get("inv_probe", True):
            return []
        got = seen(self.store(S), S.g.probe)
        here = t.holds(zi(S.g.probe), zi(k))
        out = [("exactly those are there", c.Iff(got is not None, T(here)))]
        if got is not None:
            i = t.at(zi(S.g.probe))
            frag = seen(got, S.g.index)
            out.append(("with exactly the fragments on disk", c.Iff(frag is not None, T(t.has(i, zi(S.g.index), t.files(i))))))
            if frag is not None:
                out.append(("and their bytes", c.same(frag, S.g.w.fragment(zi(S.g.probe), S.g.index))))
        return out

    def havoc(self, S, k):
        from pyvc.sym import SMap, become, mk

        t = S.g.tree
        become(self.store(S), SMap(lambda x: mk(t.holds(zi(x), k)), lambda x: t.loaded(t.at(zi(x)), t.files(t.at(zi(x)))), name="checksums"))
        return {}

    def step_begin(self, S, k, item):
        S.g.tree.round = k

    def frame_ok(self, S, obj, path, lab, old, new):
        return "fragment_data" in path or "type_data" in path or obj is self.store(S)

    def modifies(self, S):
        from pyvc.sym import SMap

        d = self.store(S)
        vc = d.vc
        return [S.g, d, S.g.tree] + ([vc, vc.overlay, vc.cache] if isinstance(vc, SMap) else [])


class Files(LoopSpec):
    """The first j files of the folder are loaded."""

    name = "files"
    tag = "files"

    def target(self, S):
        from pyvc.core import Unsupported

        t, w = S.g.tree, S.g.w
        got = seen(w.cache.fragment_data[w.mtype.value], T(t.crc(t.round)))
        from pyvc.sym import VDict

        if type(got) is not VDict:
            raise Unsupported("no mapping to load into")
        return got

    def inv(self, S, j):
        t, c = S.g.tree, S.ctx
        frag = seen(self.target(S), S.g.index)
        out = [("exactly the files so far", c.Iff(frag is not None, T(t.has(t.round, zi(S.g.index), zi(j)))))]
        if frag is not None:
            out.append(("with their bytes", c.same(frag, S.g.w.fragment(t.crc(t.round), S.g.index))))
        return out

    def havoc(self, S, j):
        from pyvc.sym import become

        t = S.g.tree
        become(self.target(S), t.loaded(t.round, j))
        return {}

    def step_begin(self, S, j, item):
        S.g.file = j

    def modifies(self, S):
        d = self.target(S)
        return [S.g, d, S.g.tree] + ([d.vc, d.vc.overlay, d.vc.cache] if d.vc is not None else [])


@unit("C12/load", props="C12", funcs=FUNCS + [M + "load_fragments"], loops=[Folders, Files], concrete=False, opts=OPTS)
def u_load(v):
    """Whatever is on disk is what the cache has after loading, no more."""
    g = v.g
    w = World(v)
    g.tree = w.disk = t = Tree(v, w)
    g.probe, g.index, g.file = v.int("probe", 0), v.int("index", 0), None
    w.cache.fragment_data = v.call(dict)
    for mtype in type(w.mtype):
        w.cache.fragment_data[mtype.value] = v.call(dict)
    out = w.run(lambda: w.cache.load_fragments(w.dir))
    v.check("does not fail", out[0] == "ok")
    if out[0] != "ok":
        return
    for mtype in type(w.mtype):
        if mtype is not w.mtype:
            v.check("other types get nothing", not w.cache.fragment_data[mtype.value])
    got = seen(w.cache.fragment_data[w.mtype.value], g.probe)
    v.check("exactly the checksums on disk", v.Iff(got is not None, T(t.holds(zi(g.probe), t.n))))
    if got is None:
        return
    i = t.at(zi(g.probe))
    frag = seen(got, g.index)
    v.check("exactly their fragments", v.Iff(frag is not None, T(t.has(i, zi(g.index), t.files(i)))))
    if frag is not None:
        v.check("and their bytes", v.same(frag, w.fragment(zi(g.probe), g.index)))


@search("C12")
def search_cache(v):
    """Real caches: any order, duplicates, mixtures, reloads and crashes."""
    import builtins
    import os
    import shutil
    import tempfile
    import zlib

    import vtelem.message.cache as m
    from vtelem.message.cache import MessageCache
    from vtelem.types.frame import FrameFooter, FrameHeader, FrameType, MessageType, ParsedFrame

    messages = []
    for _ in range(v.int("messages", 1, 4)):
        data = v.bytes("data", n=v.int("size", 0, 9))
        mtype = v.choose("type", list(MessageType))
        if any(data == d for _, d, _ in messages):
            continue
        size = v.int("fragment size", 1, 4)
        messages.append((mtype, data, [data[i:i + size] for i in range(0, max(len(data), 1), size)]))
    if messages and v.choose("twin", [False, True]):
        # the same bytes as another type of message, fragmented otherwise
        mtype, data, _ = messages[0]
        messages.append((v.choose("twin type", [x for x in MessageType if x is not mtype]), data, [data[i:i + 1] for i in range(max(len(data), 1))]))
    scratch = tempfile.mkdtemp(prefix="vc12s")
    where = os.path.join(scratch, "cache")
    seen = {}

    def consumer(who):
        def fn(mtype, number, data):
            seen.setdefault((mtype, bytes(data)), []).append((who, number))
        return fn

    def start():
        seen.clear()
        return MessageCache(where, {x: [consumer(0), consumer(1)] for x in MessageType})

    class Torn:
        """Half of it is written, or all but not yet what follows."""

        def __init__(self, file, at):
            self.file, self.at = file, at

        def __enter__(self):
            return self

        def __exit__(self, *_):
            self.file.close()

        def write(self, data):
            data = bytes(data)
            self.file.write(data[:len(data) // 2])
            self.file.flush()
            if self.at == "write":
                raise KeyboardInterrupt
            return self.file.write(data[len(data) // 2:])

        def __getattr__(self, name):
            return getattr(self.file, name)

    def crashing(at, fn):
        """Run until the crash, if it gets there."""
        def opened(path, mode="r", *a, **k):
            file = builtins.open(path, mode, *a, **k)
            return Torn(file, at) if set(mode) & set("wax+") else file

        def stopped(*_):
            raise KeyboardInterrupt

        saved = (m.os.replace, m.os.rename)
        m.open = opened
        if at == "replace":
            m.os.replace = m.os.rename = stopped
        try:
            fn()
            return False
        except KeyboardInterrupt:
            return True
        finally:
            del m.open
            m.os.replace, m.os.rename = saved

    try:
        cache = start()
        # per message: the fragments that surely arrived; complete in the memory
        arrived = [set() for _ in messages]
        complete = [None for _ in messages]
        delivered = [[] for _ in messages]
        written = [None for _ in messages]
        for step in range(v.int("steps", 1, 25)):
            what = v.choose("what", ["fragment"] * 12 + ["reload", "write", "write and reload", "crash", "clean"])
            if what in ("fragment", "crash"):
                n = v.choose("which", list(range(len(messages))))
                mtype, data, parts = messages[n]
                i = v.int("index", 0, len(parts) - 1)
                number = v.int("number", 0, 65535)
                body = {"message_type": mtype.value, "message_number": number, "message_crc": zlib.crc32(data), "fragment_index": i,
                        "total_fragments": len(parts), "fragment_bytes": parts[i]}
                frame = ParsedFrame(FrameHeader(0, 0, FrameType.MESSAGE, 0, 0), body, FrameFooter(None))
                if what == "crash":
                    if not crashing(v.choose("crash at", ["write", "replace"]), lambda: cache.ingest(frame)):
                        complete[n] = number if complete[n] is not None or arrived[n] | {i} == set(range(len(parts))) else None
                        arrived[n].add(i)
                    cache = start()
                    complete = list(written)
                    delivered = [[] if x is None else [x] for x in complete]
                else:
                    cache.ingest(frame)
                    arrived[n].add(i)
                    if complete[n] is not None:
                        complete[n] = number
                    elif arrived[n] == set(range(len(parts))):
                        complete[n] = number
                        delivered[n].append(number)
            if what.startswith("write"):
                cache.write()
                written = list(complete)
            if what.endswith("reload"):
                cache = start()
                complete = list(written)
                delivered = [[] if x is None else [x] for x in complete]
            if what == "clean":
                cache.clean()
                arrived = [set() for _ in messages]
                complete = [None for _ in messages]
                written = [None for _ in messages]
                # what was delivered was
            for n, (mtype, data, parts) in enumerate(messages):
                crc = zlib.crc32(data)
                got = cache.content(mtype, crc)
                if complete[n] is None:
                    v.check("nothing before it is complete", got is None and crc not in cache.complete(mtype))
                else:
                    v.check("complete messages are listed, once", cache.complete(mtype).count(crc) == 1)
                    v.check("with their content", got is not None and bytes(got[1]) == data and got[0] == complete[n])
                calls = seen.get((mtype, data), [])
                v.check("every consumer is called exactly once for it", calls == [(w, x) for x in delivered[n] for w in (0, 1)])
            v.check("no other message appears", set(seen) <= {(t, d) for t, d, _ in messages})
    finally:
        shutil.rmtree(scratch)
