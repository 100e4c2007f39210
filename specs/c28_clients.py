"""C28: datagram clients are registered, and torn down exactly once."""
from pyvc.api import search, unit
from pyvc.loops import LoopSpec

from ._common import free
from .c18_machines import environment
from .c19_writer import COUNTS, Env, T, zi

M = "vtelem.classes.udp_client_manager:UdpClientManager."
FUNCS = [M + n for n in ("__init__", "client_name", "add_client", "add_clients", "remove_all", "remove_client")] + [
    "vtelem.stream.writer:StreamWriter.add_stream", "vtelem.stream.writer:StreamWriter.remove_stream"]
OPTS = {"mbqi": False, "branch_ms": 500}


class Socket:
    """A connected datagram socket (of the i-th client)."""

    def __init__(self, net, i=None):
        self.net, self.i, self.closed, self.file = net, i, 0, None

    def getsockname(self):
        if self.closed:
            raise OSError(9, "Bad file descriptor")
        return ("127.0.0.1", self.net.port(self))

    def makefile(self, *_, **__):
        self.file = File(self)
        return self.file

    def close(self):
        self.closed += 1
        self.net.closing(self)


class File:
    """Its stream."""

    def __init__(self, sock):
        self.sock, self.name, self.closed, self.how, self.data = sock, 7, 0, "ok", []

    def write(self, data):
        if self.how == "write":
            raise ConnectionRefusedError(111, "refused")
        self.data.append(bytes(data))
        return len(data)

    def flush(self):
        pass

    def close(self):
        self.closed += 1
        self.sock.net.filed(self)


class Net:
    """What the manager gets from the system."""

    def __init__(self, v):
        import vtelem.classes.udp_client_manager as mod

        self.v, self.mod = v, mod
        self.made, self.mtu = [], v.int("path mtu", 68, 65535)
        self.fails = v.choose("network", ["works", "no socket"])

    def port(self, sock):
        return 1

    def closing(self, sock):
        pass

    def filed(self, file):
        how = self.v.choose("closing", ["ok", "refused", "unreachable"])
        if how == "refused":
            raise ConnectionRefusedError(111, "refused")
        if how == "unreachable":
            raise OSError(101, "unreachable")

    def run(self, fn):
        mod = self.mod
        old = mod.create_udp_socket, mod.discover_mtu
        mod.create_udp_socket, mod.discover_mtu = self.create, lambda *_, **__: self.mtu
        try:
            return self.v.outcome(fn)
        finally:
            mod.create_udp_socket, mod.discover_mtu = old

    def create(self, host, *_, **__):
        if self.fails == "no socket":
            raise OSError(24, "no sockets")
        self.made.append(Socket(self))
        return self.made[-1]


class World(Net):
    """A manager with any clients on a writer with any streams.

    The clients are the first n: key(i) is the identifier of the i-th, at() its
    place. A stream may have been removed behind the manager's back.
    """

    def __init__(self, v):
        super().__init__(v)
        import z3

        from vtelem.classes.udp_client_manager import UdpClientManager
        from vtelem.stream.writer import StreamWriter

        g = v.g
        g.w = self
        g.closed = g.files = 0
        I, B = z3.IntSort(), z3.BoolSort()
        F = lambda nm, *s: z3.Function(v.fresh_name(nm), *s)
        self.key, self.at, self.strm = F("key", I, I), F("at", I, I), F("stream", I, B)
        self.n, self.next, self.count = v.int("clients", 0).t, v.int("next id", 0), v.int("streams", 0)
        i, s = z3.Int(v.fresh_name("i")), z3.Int(v.fresh_name("s"))
        v.add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n), z3.And(
            self.at(self.key(i)) == i, self.key(i) >= 0, self.key(i) < self.next.t))))
        v.add(z3.ForAll([s], z3.Implies(self.strm(s), z3.And(s >= 0, s < self.next.t))))
        self.writer = StreamWriter("out", None, None, Env())
        self.manager = UdpClientManager(self.writer)
        self.gone = F("gone", I, I)     # ghost: number of streams of clients below i
        v.add(self.gone(0) == 0)
        self.writer.curr_id = self.next
        self.install(0)
        for name in COUNTS:
            self.writer.reset_metric(name, self.count if name == "stream_count" else 0)
        self.open = lambda c: True

    def has(self, s, j=0):
        """A client that is not among the first j."""
        import z3

        i = self.at(s)
        return z3.And(i >= j, i >= 0, i < self.n, self.key(i) == s)

    def stream(self, s, j=0):
        import z3

        return z3.And(self.strm(s), z3.Not(z3.And(self.has(s), self.at(s) < j)))

    def install(self, j, iterable=True):
        from pyvc.sym import SInt, SMap, mk, zint

        j = zint(j)
        keys = (lambda i: SInt(self.key(zint(i)))) if iterable else None
        self.manager.clients = SMap(lambda s: mk(self.has(zint(s), j)), lambda s: self.client(s), keys=keys,
                                    n=self.n if keys else None, tag="clients", name="clients")
        self.writer.streams = SMap(lambda s: mk(self.stream(zint(s), j)), lambda s: object(), name="streams")
        self.writer.stream_closers = SMap(lambda s: mk(self.stream(zint(s), j)), lambda s: None, name="closers")
        self.writer.stream_attrs = SMap(lambda s: mk(self.stream(zint(s), j)), lambda s: {"flush": False}, name="attrs",
                                        default=lambda: {"flush": False})

    def client(self, s):
        import z3

        sock = Socket(self, z3.simplify(self.at(zi(s))))
        return sock, sock.makefile("wb")

    def port(self, sock):
        from pyvc.sym import SInt

        import z3

        return SInt(z3.Function("port", z3.IntSort(), z3.IntSort())(zi(sock.i))) if sock.i is not None else 1

    def closing(self, sock):
        v, g = self.v, self.v.g
        v.check("a socket is closed once", sock.closed == 1)
        v.check("its stream is closed before", sock.file.closed == 1)
        g.last = sock
        g.closed = g.closed + 1

    def filed(self, file):
        self.v.check("a stream is closed once", file.closed == 1)
        super().filed(file)

    def same_besides(self, label, probe, sid, was_client, was_stream):
        """Only sid has changed: it is neither client nor stream now."""
        v = self.v
        other = v.Not(v.same(probe, sid))
        v.check(label + "only that client is gone", v.Iff(self.manager.clients.contains_term(probe), v.And(T(self.has(zi(probe))), other)))
        v.check(label + "only that stream is gone", v.Iff(
            self.writer.streams.contains_term(probe), v.And(T(self.stream(zi(probe))), v.Or(other, v.Not(was_client)))))


@unit("C28/add", props="C28", funcs=FUNCS, concrete=False, opts=OPTS)
def u_add(v):
    from vtelem.mtu import Host

    w = World(v)
    probe = v.int("probe")
    flush = v.bool("flush")
    host = Host("127.0.0.1", 5)
    out = w.run(lambda: w.manager.add_client(host, flush))
    was = T(w.has(probe.t)), T(w.stream(probe.t))
    v.check("fails exactly without a socket", (out[0] == "raise") == (w.fails == "no socket"))
    v.check("nothing stays locked", v.And(free(v, w.manager.lock), free(v, w.writer.lock)))
    if out[0] == "raise":
        v.check("no client added", v.Iff(w.manager.clients.contains_term(probe), was[0]))
        v.check("no stream added", v.Iff(w.writer.streams.contains_term(probe), was[1]))
        return
    sid, mtu = out[1]
    v.check("the usable path MTU", v.same(mtu, w.mtu - 68))
    v.check("one socket", len(w.made) == 1 and not w.made[0].closed)
    sock = w.made[0]
    v.check("a new identifier", v.Not(v.Or(T(w.has(zi(sid))), T(w.stream(zi(sid))))))
    v.check("the client is registered", v.Iff(w.manager.clients.contains_term(probe), v.Or(was[0], v.same(probe, sid))))
    v.check("one output stream is registered", v.Iff(w.writer.streams.contains_term(probe), v.Or(was[1], v.same(probe, sid))))
    v.check("it is the socket's", w.writer.streams.get(sid) is sock.file)
    v.check("flushed as asked", v.Iff(w.writer.stream_attrs[sid]["flush"], flush))
    v.check("counted", v.same(w.writer.env.values["out.stream_count"], w.count + 1))
    name = w.manager.client_name(sid)
    v.check("its name", name == Host("127.0.0.1", 1))
    how = v.choose("then", ["remove", "fail"])
    out = w.run((lambda: w.manager.remove_client(sid)) if how == "remove" else lambda: w.writer.error_handle(sid))
    v.check("it can be removed", out[0] == "ok")
    v.check("its socket is closed once", sock.closed == 1 and sock.file.closed == 1)
    v.check("it is no client any more", v.Not(w.manager.clients.contains_term(sid)))
    if how == "remove":
        v.check("nor a stream", v.Not(w.writer.streams.contains_term(sid)))
    out = w.run(lambda: w.manager.remove_client(sid))
    v.check("removing it again is harmless", out[0] == "ok" and sock.closed == 1)
    out = w.run(lambda: w.writer.error_handle(sid))
    v.check("a late failure is harmless", out[0] == "ok" and sock.closed == 1)


@unit("C28/remove", props="C28", funcs=FUNCS, concrete=False, opts=OPTS)
def u_remove(v):
    """Removing or failing of any identifier, client or not."""
    g = v.g
    w = World(v)
    probe, sid = v.int("probe"), v.int("id")
    client, stream = T(w.has(sid.t)), T(w.stream(sid.t))
    how = v.choose("how", ["remove", "fail"])
    out = w.run((lambda: w.manager.remove_client(sid)) if how == "remove" else lambda: w.writer.error_handle(sid))
    v.check("does not fail", out[0] == "ok")
    v.check("nothing stays locked", v.And(free(v, w.manager.lock), free(v, w.writer.lock)))
    if out[0] != "ok":
        return
    v.check("one socket is closed exactly for a client", v.same(g.closed, v.Ite(client, 1, 0)))
    if g.closed == 1:
        v.check("it is that client's", v.same(g.last.i, T(w.at(sid.t))))
    other = v.Not(v.same(probe, sid))
    v.check("only that client is gone", v.Iff(w.manager.clients.contains_term(probe), v.And(T(w.has(probe.t)), other)))
    left = T(w.stream(probe.t)) if how == "fail" else v.And(T(w.stream(probe.t)), v.Or(other, v.Not(client)))
    if how == "fail":
        # the writer removes a failing stream itself, before or after
        keeps = w.writer.streams.contains_term(probe)
        v.check("only that stream may be gone", v.And(v.Implies(keeps, T(w.stream(probe.t))), v.Implies(v.And(left, other), keeps)))
    else:
        v.check("only that stream is gone", v.Iff(w.writer.streams.contains_term(probe), left))
        v.check("counted", v.same(w.writer.env.values["out.stream_count"], w.count - v.Ite(v.And(client, stream), 1, 0)))


class RemoveAll(LoopSpec):
    """The first k clients are gone, each closed once."""

    name = "clients"
    tag = "clients"

    def inv(self, S, k):
        g, w, c = S.g, S.g.w, S.ctx
        p = g.probe
        return [("each socket so far was closed", c.same(g.closed, k)),
                ("these clients are gone", c.Iff(w.manager.clients.contains_term(p), T(w.has(p.t, zi(k))))),
                ("and their streams", c.Iff(w.writer.streams.contains_term(p), T(w.stream(p.t, zi(k))))),
                ("and their closers", c.Iff(w.writer.stream_closers.contains_term(p), T(w.stream(p.t, zi(k))))),
                ("counted", c.same(w.writer.env.values["out.stream_count"], w.count - T(w.gone(zi(k))))),
                ("counted inside", c.same(w.writer.function["metrics_data"]["stream_count"], w.count - T(w.gone(zi(k)))))]

    def havoc(self, S, k):
        g, w, c = S.g, S.g.w, S.ctx
        g.closed = c.int("closed", 0)
        g.last = None
        w.install(k, False)
        val = c.int("count")
        w.writer.env.values["out.stream_count"] = w.writer.function["metrics_data"]["stream_count"] = val
        return {}

    def step_begin(self, S, k, item):
        import z3

        w = S.g.w
        S.ctx.add(w.gone(k + 1) == w.gone(k) + z3.If(w.strm(w.key(k)), 1, 0))

    def step_end(self, S, k):
        w, c = S.g.w, S.ctx
        c.check("the socket closed is the client's", S.g.last is not None and c.same(S.g.last.i, k))

    def modifies(self, S):
        w = S.g.w
        out = [S.g, w, w.writer.env, w.writer.env.values, w.writer.function["metrics_data"]]
        for m in (w.manager.clients, w.writer.streams, w.writer.stream_closers, w.writer.stream_attrs):
            out += [m.cache, m.overlay]
        return out

    def frame_ok(self, S, obj, path, lab, old, new):
        return isinstance(obj, (Socket, File))


@unit("C28/remove_all", props="C28", funcs=FUNCS, concrete=False, loops=[RemoveAll], opts=OPTS)
def u_remove_all(v):
    g = v.g
    w = World(v)
    g.probe = v.int("probe")
    out = w.run(w.manager.remove_all)
    v.check("does not fail", out[0] == "ok")
    if out[0] != "ok":
        return
    v.check("no client is left", v.Not(w.manager.clients.contains_term(g.probe)))
    v.check("every client's socket was closed", v.same(g.closed, T(w.n)))
    v.check("only the clients' streams are gone", v.Iff(
        w.writer.streams.contains_term(g.probe), v.And(T(w.strm(g.probe.t)), v.Not(T(w.has(g.probe.t))))))
    v.check("counted", v.same(w.writer.env.values["out.stream_count"], w.count - T(w.gone(w.n))))
    v.check("nothing stays locked", v.And(free(v, w.manager.lock), free(v, w.writer.lock)))


@search("C28")
def search_clients(v):
    """Any history of clients added, removed and failing, on a real writer."""
    import queue as _q

    from vtelem.channel.framer import build_dummy_frame
    from vtelem.classes.udp_client_manager import UdpClientManager
    from vtelem.mtu import Host
    from vtelem.stream.writer import StreamWriter

    env = environment(v)
    net = Net(v)
    net.mtu = 1500
    net.fails = "works"
    writer = StreamWriter("out", _q.Queue(), None, env)
    manager = UdpClientManager(writer)
    clients, gone, foreign = {}, [], {}

    class Foreign:
        """A stream of somebody else."""

        def __init__(self):
            self.fails, self.writes = False, 0

        def write(self, data):
            self.writes += 1
            if self.fails:
                raise OSError(5, "broken")
            return len(data)

        def flush(self):
            pass

    for step in range(v.int("steps", 1, 30)):
        op = v.choose("op", ["add", "add", "several", "foreign", "frame", "frame", "break", "break foreign", "remove", "remove", "bad", "no socket",
                             "behind", "all", "late"])
        if op == "add":
            out = net.run(lambda: manager.add_client(Host("localhost", 5), v.bool("flush")))
            v.check("added", out[0] == "ok")
            if out[0] != "ok":
                return
            v.check("new", out[1][0] not in clients and out[1][0] not in foreign)
            v.check("mtu", out[1][1] == 1500 - 68)
            clients[out[1][0]] = net.made[-1]
            v.check("name", manager.client_name(out[1][0]) == Host("127.0.0.1", 1))
        elif op == "several":
            n = len(net.made)
            hosts = [Host("localhost", 1000 + i) for i in range(v.int("n", 1, 3))]
            out = net.run(lambda: manager.add_clients(hosts))
            v.check("all added", out[0] == "ok" and set(out[1]) == set(hosts) and len(net.made) == n + len(hosts))
            if out[0] != "ok":
                return
            for i, host in enumerate(hosts):
                clients[out[1][host][0]] = net.made[n + i]
        elif op == "foreign":
            s = Foreign()
            foreign[writer.add_stream(s)] = s
        elif op == "break" and clients:
            clients[v.choose("which", sorted(clients))].file.how = "write"
        elif op == "break foreign" and foreign:
            foreign[v.choose("which", sorted(foreign))].fails = True
        elif op == "frame":
            out = net.run(lambda: writer.handle(build_dummy_frame(64)))
            v.check("the writer goes on", out[0] == "ok")
            for sid in list(clients):
                if clients[sid].file.how == "write":
                    gone.append(clients.pop(sid))
            for sid in list(foreign):
                if foreign[sid].fails:
                    del foreign[sid]
        elif op in ("remove", "behind") and clients:
            sid = v.choose("which", sorted(clients))
            if op == "behind":
                writer.remove_stream(sid)
            out = net.run(lambda: manager.remove_client(sid))
            v.check("removing does not fail", out[0] == "ok")
            gone.append(clients.pop(sid))
        elif op == "bad":
            sid = v.choose("which", sorted(foreign) + [12345])
            v.check("removing what is no client does not fail", net.run(lambda: manager.remove_client(sid))[0] == "ok")
        elif op == "late":
            v.check("a late failure is harmless", net.run(lambda: writer.error_handle(999))[0] == "ok")
        elif op == "no socket":
            net.fails = "no socket"
            n = len(net.made)
            out = net.run(lambda: manager.add_client(Host("localhost", 5)))
            v.check("fails without a socket", out[0] == "raise" and len(net.made) == n)
            net.fails = "works"
        elif op == "all":
            v.check("removing all does not fail", net.run(manager.remove_all)[0] == "ok")
            gone.extend(clients.values())
            clients.clear()
        for sid, sock in clients.items():
            v.check("clients are open", not sock.closed and not sock.file.closed)
        for sock in gone:
            v.check("closed exactly once", sock.closed == 1)
            v.check("its stream too", sock.file.closed >= 1)
        v.check("the clients are registered", set(manager.clients) == set(clients))
        v.check("the streams are registered", set(writer.streams) == set(clients) | set(foreign))
        v.check("counted", (env.get_metric("out.stream_count") if env.has_metric("out.stream_count") else 0) == len(clients) + len(foreign))
