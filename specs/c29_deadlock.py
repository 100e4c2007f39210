"""C29: operations do not wait while holding a lock, locks nest in one order.

As for C21, operations are verified on unknown contents (``Wild``), with every
lock a real (modelled) one. Two things are checked on every path:

* a collaborator with locks of its own is only called while every lock held
  comes before its locks in the global order, and a lock is only
  taken in that order;
* whatever may wait for another thread (a bounded queue, an output, a callback
  that closes one, a thread to join, a server to shut down, a sleep) is only
  called while none of the locks other threads need to get on is held.
"""
from pyvc.api import search, unit
from pyvc.wild import Havoc, Wild

from .c09_dispatch import Forward, forwarding
from .c18_machines import environment
from .c21_locks import ARITY, CE, OPTS, TE, TM, Rounds, locks_of, outcome, run_context, start, swapped, unknown

# the global order of locks
MANAGER, UDP, KEEPER, SERVER, DAEMON, ENV, ENUMS, REGISTRY, EVENTS = range(9)
# what waits (or runs the unknown code of an output) on a queue or an output
WAITS = {"put", "get", "write", "flush", "close", "acquire", "join", "shutdown", "wait", "sleep", "select", "recv", "send", "sendto", None}


def held(v):
    return [x for x in v.g.locks.values() if x.depth > 0]


def free(v, what="nothing waits under a lock", but=()):
    """Called where another thread may be waited for."""
    v.check(what, all(x in but for x in held(v)))


def before(v, rank, what, own=False):
    """What is called takes locks of this rank (its own: those held, too)."""
    v.check("%s: locks are taken in order" % what, all(x.rank < rank or own and x.rank == rank for x in held(v)))


def patient(args, kwargs, n=1):
    """Called without a time limit, allowed to wait (put: item first)."""
    rest = list(args[n:])
    block = kwargs.get("block", rest[0] if rest else True)
    limit = kwargs.get("timeout", rest[1] if len(rest) > 1 else None)
    return block is not False and limit is None


def waiting(v, names=WAITS, but=()):
    """Hook of outputs: their calls may wait."""
    def hook(name, args, kwargs):
        if name not in names:
            return
        if name == "put" and not patient(args, kwargs) or name == "get" and not patient(args, kwargs, 0):
            return
        free(v, "nothing waits (%s) under a lock" % (name or "callback"), but)

    return hook


def peer(v, label, rank, waits=(), but=(), own=False):
    """A collaborator with locks of this rank; some of its operations wait."""
    def hook(name, args, kwargs):
        before(v, rank, label, own)
        if name in waits and not (name == "remove_queue" and (args[1:2] == (False,) or kwargs.get("inject_none") is False)):
            free(v, "nothing waits (%s) under a lock" % name, but)

    return Wild(label, v.g.raises, none=False, hook=hook)


def guard(v, ranks):
    """Every lock of the objects, with the rank of its owner."""
    g = v.g
    g.locks = {}
    for obj, rank in ranks:
        for path, lock in locks_of(obj).items():
            if lock in g.locks.values():
                continue
            g.locks["%s#%d" % (path, rank)] = lock
            lock.rank = rank

            def taken(lock, rank=rank):
                v.check("locks are taken in order", all(x.rank < rank for x in held(v) if x is not lock))

            lock.on_acquire = taken
    v.check("there is something to guard with", len(g.locks) > 0)
    g.self_wait = lambda: v.check("a thread does not wait for itself", False)


def lists(v, name, kind):
    """The module's queue class: what is made by it has room, or may wait."""
    def make(maxsize=0, *_, **__):
        roomy = isinstance(maxsize, int) and maxsize <= 0
        return Wild("staged", v.g.raises, none=False, hook=None if roomy else waiting(v))

    return make


class Made:
    """A class of another module, replaced for a while."""

    def __init__(self, mod, **names):
        import importlib

        self.mod, self.names = importlib.import_module(mod), names

    def __enter__(self):
        self.old = {n: getattr(self.mod, n) for n in self.names if hasattr(self.mod, n)}
        for n in self.old:
            setattr(self.mod, n, self.names[n])

    def __exit__(self, *_):
        for n, x in self.old.items():
            setattr(self.mod, n, x)
        return False


# -- environments -------------------------------------------------------------
@unit("C29/forward", props="C29", loops=[Forward], concrete=False,
      funcs=["vtelem.channel.environment:ChannelEnvironment." + n for n in (
          "dispatch", "dispatch_now", "dispatch_data", "dispatch_events", "enqueue_frames")])
def u_forward(v):
    """Frames wait for room only while the environment is free."""
    def on_put():
        for lock in locks_of(v.g.env).values():
            v.check("no frame waits for room under a lock", lock.depth == 0)

    forwarding(v, on_put)


def env_world(v, op):
    from vtelem.channel.framer import ChannelFramer
    from vtelem.telemetry.environment import TelemetryEnvironment

    env = TelemetryEnvironment(2 ** 10)
    framer = env.framer
    unknown(v, env, optional=("metrics",), keep=("log_data", "framer"))
    hidden = {"channel_registry": REGISTRY, "type_registry": REGISTRY, "enum_registry": ENUMS, "event_queue": EVENTS}
    for name, rank in hidden.items():
        if hasattr(env, name):
            setattr(env, name, peer(v, name, rank))
    env.frame_queue = Wild("frame_queue", v.g.raises, none=False, hook=waiting(v))
    if op.startswith("dispatch"):
        unknown(v, framer, keep=("lock",))
        framer.registry = env.channel_registry
        framer.new_data_frame = framer.new_event_frame = Wild("frame", v.g.raises)
    else:
        env.framer = peer(v, "framer", ENV, own=True)
    guard(v, [(env, ENV)])
    return env


def env_unit(names, label):
    @unit("C29/%s" % label, props="C29", funcs=["vtelem.channel.environment:ChannelEnvironment." + n for n in names if n in CE] + [
        "vtelem.telemetry.environment:TelemetryEnvironment." + n for n in names if n in TE] + [
        "vtelem.classes.time_entity:TimeEntity." + n for n in names if n in TM] + ([
            "vtelem.channel.framer:ChannelFramer.build_event_frames", "vtelem.channel.framer:ChannelFramer.build_data_frames"]
            if "dispatch_data" in names else []),
        loops=[Rounds], concrete=False, opts=OPTS)
    def run(v):
        op = v.choose("operation", sorted(names))
        w = start(v, ())
        env = env_world(v, op)
        args = [w() for _ in range(ARITY.get(op, 2))]
        if op in ("add_channel", "add_enum_channel", "add_enum_metric", "add_metric"):
            given = v.choose("given", ["nothing", "all"])
            kwargs = {} if given == "nothing" else {"track_change": w(), "initial": w()}
        else:
            kwargs = {}
        with Made("vtelem.channel.environment", Channel=w("channel"), Queue=lists(v, "Queue", "env")):
            outcome(v, lambda: getattr(env, op)(*args, **kwargs))

    return run


env_unit(["dispatch_data", "dispatch_events", "dispatch_now", "dispatch"], "dispatch")
env_unit([n for n in CE if n not in ("add_channel", "dispatch", "dispatch_now", "dispatch_data", "dispatch_events", "add_metric",
                                     "register_base_metrics", "command_channel")], "environment")
env_unit(["add_channel", "command_channel"], "channels")
env_unit([n for n in TE if n not in ("add_enum_channel", "add_enum_metric", "add_from_enum", "add_enum")] + list(TM), "telemetry")
env_unit(["add_enum", "add_from_enum", "add_enum_channel"], "adding")
env_unit(["add_metric", "add_enum_metric", "register_base_metrics"], "metrics")


@unit("C29/registries", props="C29", loops=[Rounds], concrete=False, opts=OPTS,
      funcs=["vtelem.registry:Registry." + n for n in ("get_item", "get_id", "add", "count", "describe", "describe_raw")] + [
          "vtelem.registry.enum:EnumRegistry." + n for n in ("get_enum", "add_from_enum", "add_enum", "export")] + [
          "vtelem.classes.event_queue:EventQueue." + n for n in ("enqueue", "consume")])
def u_registries(v):
    from vtelem.channel.registry import ChannelRegistry
    from vtelem.classes.event_queue import EventQueue
    from vtelem.registry.enum import EnumRegistry
    from vtelem.registry.type import TypeRegistry

    kind = v.choose("kind", ["type", "channel", "enum", "events"])
    w = start(v, ())
    if kind == "events":
        queue = EventQueue()
        guard(v, [(queue, EVENTS)])
        # events arrive while channels (and the environment) are locked
        def never(name, args, kwargs):
            v.check("an event never waits for room", name != "put" or not patient(args, kwargs))

        queue.queue = Wild("queue", v.g.raises, none=False, hook=never)
        op = v.choose("operation", ["enqueue", "consume"])
        outcome(v, (lambda: queue.enqueue(w(), w(), w())) if op == "enqueue" else queue.consume)
        return
    reg = {"type": TypeRegistry, "channel": ChannelRegistry, "enum": EnumRegistry}[kind]()
    reg.data = Wild("data", v.g.raises)
    reg.curr_id = Wild("id", v.g.raises)
    guard(v, [(reg, ENUMS if kind == "enum" else REGISTRY)])
    ops = {"get_item": lambda: reg.get_item(w()), "get_id": lambda: reg.get_id(w()), "add": lambda: reg.add(w("name"), w("item")),
           "count": reg.count, "describe": lambda: reg.describe(w()), "describe_raw": lambda: reg.describe_raw(w(), w())}
    if kind == "channel":
        ops["add_channel"] = lambda: reg.add_channel(w())
        ops["get_channel_type"] = lambda: reg.get_channel_type(w())
    if kind == "type":
        ops["get_type"] = lambda: reg.get_type(w())
    if kind == "enum":
        for op in ("get_enum", "add_enum", "add_from_enum"):
            ops[op] = lambda op=op: getattr(reg, op)(w())
        ops["export"] = lambda: reg.export(peer(v, "types", REGISTRY))
    outcome(v, ops[v.choose("operation", sorted(ops))])


@unit("C29/queue", props="C29", loops=[Rounds], concrete=False, opts=OPTS,
      funcs=["vtelem.classes.metered_queue:MeteredQueue." + n for n in ("__init__", "put", "get")])
def u_queue(v):
    """A metered queue waits with the environment's lock free."""
    from vtelem.classes.metered_queue import MeteredQueue

    w = start(v, ())
    env = environment(v)
    queue = MeteredQueue("things", env)
    guard(v, [(env, ENV)])
    queue.items.append(5)
    queue.on_wait = lambda: free(v)
    how = v.choose("how", ["put", "get"])
    outcome(v, (lambda: queue.put(w())) if how == "put" else queue.get)


@unit("C29/group", props="C29", funcs=["vtelem.channel.group:ChannelGroup." + n for n in (
    "read", "write", "data", "add_channel", "add_enum_channel")], loops=[Rounds], concrete=False, opts=OPTS)
def u_group(v):
    from vtelem.channel.group import ChannelGroup
    from vtelem.classes.time_entity import OptionalRLock
    from vtelem.enums.primitive import Primitive

    op = v.choose("operation", ["read", "write", "data", "add_channel", "add_enum_channel"])
    w = start(v, (Havoc,))
    env = peer(v, "environment", ENV, own=True)
    env.__dict__["lock"] = OptionalRLock(True)
    group = ChannelGroup("group", env)
    group.channels = w("channels")
    guard(v, [(env.lock, ENV)])
    if op == "data":
        fn = run_context(group.data, lambda data: free(v, "the user's section may wait"), v)
    elif op.startswith("add"):
        fn = lambda: getattr(group, op)(w(), Primitive.BOOLEAN if op == "add_channel" else w(), w())
    else:
        fn = (lambda: group.write(w())) if op == "write" else group.read
    outcome(v, fn)


# -- time ---------------------------------------------------------------------
@unit("C29/time", props="C29", funcs=["vtelem.classes.time_keeper:TimeKeeper." + n for n in (
    "iteration", "add_slave", "set_slaves", "scale", "sleep")], loops=[Rounds], concrete=False, opts=OPTS)
def u_time(v):
    from vtelem.classes.time_entity import OptionalRLock
    from vtelem.classes.time_keeper import TimeKeeper

    op = v.choose("operation", ["iteration", "add_slave", "set_slaves", "scale", "sleep", "advance_time", "set_time", "get_time"])
    w = start(v, (Havoc,))
    keeper = unknown(v, TimeKeeper("time", 0.5, 1.0, lambda: 0.0, lambda t: None), keep=("time",))
    follower = peer(v, "follower", SERVER, own=True)
    lock = follower.__dict__["lock"] = OptionalRLock(True)
    keeper.slaves = Wild("slaves", v.g.raises, none=False, hook=lambda name, args, kwargs: before(v, SERVER, "follower", True))
    keeper.time_function = Wild("clock", v.g.raises)
    keeper.sleep_function = Wild("sleep", v.g.raises, hook=waiting(v))
    guard(v, [(keeper, KEEPER), (lock, SERVER)])
    arity = {"iteration": 0, "set_slaves": 0, "get_time": 0}.get(op, 1)
    outcome(v, lambda: getattr(keeper, op)(*([follower] if op == "add_slave" else [w() for _ in range(arity)])))


# -- daemons ------------------------------------------------------------------
OPS = {"set_state": 1, "set_env_metric": 2, "reset_metric": 1, "increment_metric": 1, "decrement_metric": 1, "run_harness": 0,
       "start": 0, "pause": 0, "unpause": 0, "begin_stop": 0, "stop": 0, "restart": 0, "set_rate": 1, "run": 0}


@unit("C29/daemon", props="C29", funcs=["vtelem.daemon:DaemonBase." + n for n in OPS if n not in ("set_rate", "run")] + [
    "vtelem.daemon.synchronous:Daemon." + n for n in ("set_rate", "run")], loops=[Rounds], concrete=False, opts=OPTS)
def u_daemon(v):
    """A daemon waits for its thread, its input and its task unlocked."""
    from vtelem.daemon.synchronous import Daemon
    from vtelem.enums.daemon import DaemonState

    op = v.choose("operation", sorted(OPS))
    start(v, ())
    w = lambda label="arg": Wild(label, ())
    daemon = Daemon("task", lambda: None, 1.0)
    unknown(v, daemon, keep=("state", "name"))
    daemon.state = v.choose("state", list(DaemonState))
    daemon.env = v.choose("metered", [True, False]) or None
    if daemon.env:
        daemon.env = peer(v, "environment", ENV)
    daemon.function = Wild("function", (), none=False, hook=waiting(v, {"inject_stop", "sleep", "task", "init", "overrun"}))
    daemon.thread = Wild("thread", (), none=False, hook=waiting(v, {"join"}))
    if op in ("start", "pause", "unpause", "begin_stop", "stop", "restart", "run_harness", "run"):
        # set_state and the metrics under their contracts, established by their own cases
        for name in ("reset_metric", "increment_metric", "decrement_metric", "set_env_metric"):
            setattr(daemon, name, peer(v, name, DAEMON, own=True))
        real = daemon.set_state

        def set_state(new):
            before(v, DAEMON, "set_state", True)
            return real(new) if op in ("pause", "unpause") else w("changed")._flag()

        daemon.set_state = set_state
    if op == "run_harness":
        daemon.run = Wild("run", (), hook=waiting(v))
    if op == "restart":
        daemon.stop, daemon.start = Wild("stop", (), hook=waiting(v)), Wild("start", ())
    guard(v, [(daemon, DAEMON)])
    args = [w() for _ in range(OPS[op])]
    if op == "set_state":
        args = [v.choose("new", list(DaemonState))]
    outcome(v, lambda: getattr(daemon, op)(*args))


@unit("C29/input", props="C29", funcs=["vtelem.daemon.queue:QueueDaemon." + n for n in ("__init__", "run", "await_empty")] + [
    "vtelem.daemon:DaemonBase.begin_stop", "vtelem.daemon:DaemonBase.stop"], loops=[Rounds], concrete=False, opts=OPTS)
def u_input(v):
    """Telling a queue daemon to stop may wait for room in its queue."""
    from vtelem.daemon.queue import QueueDaemon
    from vtelem.enums.daemon import DaemonState

    op = v.choose("operation", ["begin_stop", "stop", "run", "await_empty"])
    start(v, ())
    queue = Wild("queue", (), hook=waiting(v))
    daemon = QueueDaemon("task", queue, Wild("handle", (), hook=waiting(v)))
    daemon.function["sleep"] = Wild("sleep", (), hook=waiting(v))
    daemon.function["state_change"] = Wild("state_change", ())
    daemon.thread = Wild("thread", (), none=False, hook=waiting(v, {"join"}))
    daemon.state = v.choose("state", list(DaemonState))
    guard(v, [(daemon, DAEMON)])
    outcome(v, getattr(daemon, op))


@unit("C29/manager", props="C29", funcs=["vtelem.daemon.manager:DaemonManager." + n for n in (
    "add_daemon", "perform", "perform_all", "perform_stack", "states")], loops=[Rounds], concrete=False, opts=OPTS)
def u_manager(v):
    from vtelem.daemon.manager import DaemonManager
    from vtelem.enums.daemon import DaemonOperation

    op = v.choose("operation", ["add_daemon", "perform", "perform_all", "states"])
    w = start(v, (Havoc,))
    manager = unknown(v, DaemonManager())
    guard(v, [(manager, MANAGER)])
    if op == "perform_all":
        manager.perform = w("perform")
    fn = {"add_daemon": lambda: manager.add_daemon(w(), w()), "perform": lambda: manager.perform(w(), DaemonOperation.STOP),
          "perform_all": lambda: manager.perform_all(DaemonOperation.STOP), "states": lambda: manager.states(w())}[op]
    outcome(v, fn)


# -- outputs ------------------------------------------------------------------
WRITER = {"get_queue": 1, "add_queue": 1, "registered_queue": 1, "add_stream": 1, "stream_added": -1, "add_file": -1,
          "add_semaphore_stream": 1, "remove_stream": 1, "remove_queue": 1, "handle": 1}


@unit("C29/writer", props="C29", funcs=["vtelem.stream.writer:StreamWriter." + n for n in WRITER if n != "handle"] + [
    "vtelem.stream.writer:StreamWriter.__init__"], loops=[Rounds], concrete=False, opts=OPTS)
def u_writer(v):
    """Outputs are written, told and closed with the writer's lock free."""
    from vtelem.stream.writer import StreamWriter

    op = v.choose("operation", sorted(WRITER))
    w = start(v, (OSError,) if op == "handle" else (Havoc,))
    writer = StreamWriter("out", None)
    unknown(v, writer, keep=("handle", "name"), optional=("error_handle",))
    for name in ("streams", "queues", "stream_closers"):
        # (get: of a dictionary)
        setattr(writer, name, Wild(name, v.g.raises, hook=waiting(v, WAITS - {"get"})))
    if writer.error_handle is not None:
        writer.error_handle = Wild("error_handle", v.g.raises, none=False, hook=waiting(v))
    for name in ("increment_metric", "decrement_metric", "reset_metric"):
        setattr(writer, name, peer(v, name, DAEMON, own=True))
    if op == "handle":
        writer.remove_stream = Wild("remove_stream", v.g.raises, hook=waiting(v))
    guard(v, [(writer, DAEMON)])
    stream = Wild("stream", v.g.raises, hook=waiting(v))
    if WRITER[op] < 0:
        path = Wild("path", v.g.raises)
        fn = run_context(lambda: getattr(writer, op)(stream if op == "stream_added" else path),
                         lambda data: free(v, "the user's section may wait"), v)
    else:
        args = [stream] if op in ("add_stream", "add_semaphore_stream", "add_queue") else [w()]
        fn = lambda: getattr(writer, op)(*args)
    with Made("vtelem.stream.writer", Queue=w("queue"), create=peer(v, "create", ENV)):
        outcome(v, fn)


def writer_peer(v, but=()):
    return peer(v, "writer", DAEMON, waits=("remove_queue", "remove_stream", "stream_added", "add_file", "stop"), but=but)


@unit("C29/servers", props="C29", funcs=["vtelem.stream.writer:QueueClientManager." + n for n in ("add_client_queue", "close_clients")] + [
    "vtelem.daemon.tcp_telemetry:TcpTelemetryDaemon.__init__", "vtelem.daemon.tcp_telemetry:TcpTelemetryHandler.handle"],
    loops=[Rounds], concrete=False, opts=OPTS)
def u_servers(v):
    """Servers wait for their clients' queues with their lock free."""
    from vtelem.classes.time_entity import OptionalRLock
    from vtelem.daemon.tcp_telemetry import TcpTelemetryDaemon, TcpTelemetryHandler
    from vtelem.stream.writer import QueueClientManager

    op = v.choose("operation", ["add_client_queue", "close_clients", "stop", "handle"])
    w = start(v, (Havoc,))
    if op == "stop":
        server = Wild("server", (), none=False, hook=waiting(v))
        with Made("vtelem.daemon.tcp_telemetry", socketserver=server):
            daemon = TcpTelemetryDaemon("telemetry", None, None)
        daemon.client_sems = Wild("client_sems", v.g.raises, none=False)
        guard(v, [(daemon, SERVER)])
        outcome(v, daemon.function["inject_stop"])
        return
    if op == "handle":
        daemon = peer(v, "daemon", SERVER, own=True)
        daemon.__dict__.update(lock=OptionalRLock(True), writer=writer_peer(v), client_sems=w("client_sems"))
        guard(v, [(daemon.lock, SERVER)])
        handler = TcpTelemetryHandler.__new__(TcpTelemetryHandler)
        handler.client_address, handler.wfile = ("host", 5), w("wfile")
        handler.server = Wild("server", (), daemon=daemon)

        def added(stream, *_, **__):
            before(v, DAEMON, "writer")
            return v.int("stream", 0), Wild("sem", v.g.raises, hook=waiting(v))

        daemon.writer.__dict__["add_semaphore_stream"] = added
        outcome(v, handler.handle)
        return
    manager = unknown(v, QueueClientManager("clients", None), keep=("name",))
    manager.writer = writer_peer(v)
    guard(v, [(manager, SERVER)])
    outcome(v, manager.close_clients if op == "close_clients" else lambda: manager.add_client_queue(w()))


@unit("C29/clients", props="C29", funcs=["vtelem.classes.udp_client_manager:UdpClientManager." + n for n in (
    "add_client", "remove_all", "remove_client", "__init__")] + [
    "vtelem.factories.udp_client_manager:" + n for n in ("add_client", "remove_client", "list_client")],
    loops=[Rounds], concrete=False, opts=OPTS)
def u_clients(v):
    """Clients come before the writer; closing one is asked for unlocked."""
    import vtelem.factories.udp_client_manager as factory
    from vtelem.classes.udp_client_manager import UdpClientManager

    op = v.choose("operation", ["add_client", "remove_all", "remove_client", "closer",
                                "command add", "command remove", "command list"])
    w = start(v, (OSError,) if op == "closer" else (Havoc,))
    writer = Wild("writer", v.g.raises)
    writer.__dict__["error_handle"] = None
    manager = UdpClientManager(writer)
    unknown(v, manager, keep=("closer",))
    manager.writer = writer_peer(v, but=locks_of(manager).values())
    if op.startswith("command"):
        for name in ("add_client", "remove_client", "client_name"):
            setattr(manager, name, peer(v, name, UDP, own=True))
        fn = lambda: getattr(factory, op[8:] + "_client")(manager, w("command"))
    else:
        if op != "closer":
            manager.closer = peer(v, "closer", UDP, own=True)
        if op == "remove_all":
            manager.remove_client = peer(v, "remove_client", UDP, own=True)
        fn = lambda: getattr(manager, op)(*[w() for _ in range(0 if op == "remove_all" else 1)])
    guard(v, [(manager, UDP)])
    swapped(v, "vtelem.classes.udp_client_manager", ["create_udp_socket", "discover_mtu"], lambda: outcome(v, fn))


# -- real objects -------------------------------------------------------------
class Watched:
    """A real lock that knows its place in the order."""

    def __init__(self, world, lock, rank):
        self.world, self.lock, self.rank, self.count = world, lock, rank, 0

    def acquire(self, *args, **kwargs):
        mine = self.world.mine()
        if self not in mine:
            late = [x for x in mine if x.rank >= self.rank]
            if late:
                self.world.say("locks are taken in order")
        elif "RLock" not in type(self.lock).__name__:
            self.world.say("a thread does not wait for itself")
            raise RuntimeError("deadlock")
        got = self.lock.acquire(*args, **kwargs)
        if got:
            mine.append(self)
        return got

    def release(self):
        self.lock.release()
        self.world.mine().remove(self)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *_):
        self.release()


class Threads:
    """Who holds which lock; what went wrong, in any thread."""

    def __init__(self):
        import threading

        self.local, self.bad = threading.local(), []

    def mine(self):
        if not hasattr(self.local, "held"):
            self.local.held = []
        return self.local.held

    def say(self, what):
        if what not in self.bad:
            self.bad.append(what)

    def waits(self, what="something", but=()):
        if any(x.rank not in but for x in self.mine()):
            self.say("nothing waits (%s) under a lock" % what)

    def watch(self, obj, rank):
        from vtelem.classes.time_entity import OptionalRLock

        lock = obj.lock
        if isinstance(lock, OptionalRLock):
            if not isinstance(lock.lock, Watched):
                lock.lock = Watched(self, lock.lock, rank)
        elif not isinstance(lock, Watched):
            obj.lock = Watched(self, lock, rank)


class Output:
    """A stream, a queue, a semaphore: everything on it may wait."""

    def __init__(self, v, world, ok=True, but=()):
        self.v, self.world, self.ok, self.but, self.name = v, world, ok, but, "output"

    def _do(self, what, res=None):
        self.world.waits(what, self.but)
        if not self.ok:
            raise OSError(what)
        return res

    def write(self, data):
        return self._do("write", len(data))

    def flush(self):
        self._do("flush")

    def close(self):
        self._do("close")

    def release(self):
        self._do("release")

    def put(self, item, block=True, timeout=None):
        if block and timeout is None:
            self.world.waits("put", self.but)

    def put_nowait(self, item):
        pass

    def getsockname(self):
        return ("host", 5)

    def makefile(self, *_):
        return self


def watch_queue(world, queue):
    """The moment an element is added or taken is the one to wait for."""
    for name in ("_put", "_get"):
        def step(*args, fn=getattr(queue, name), name=name):
            world.waits("queue" + name)
            return fn(*args)

        setattr(queue, name, step)


@search("C29")
def search_deadlock(v):
    """Real objects in use; locks and outputs watch each other."""
    import queue as _q
    import tempfile
    from pathlib import Path

    import vtelem.classes.udp_client_manager as ucm
    import vtelem.daemon.tcp_telemetry as tcp
    from vtelem.channel.group import ChannelGroup
    from vtelem.classes.time_keeper import TimeKeeper
    from vtelem.daemon.manager import DaemonManager
    from vtelem.daemon.synchronous import Daemon
    from vtelem.enums.daemon import DaemonOperation
    from vtelem.enums.primitive import Primitive
    from vtelem.factories.udp_client_manager import list_client, remove_client
    from vtelem.frame.framer import build_dummy_frame
    from vtelem.mtu import Host
    from vtelem.stream.writer import QueueClientManager, StreamWriter

    world = Threads()
    env = environment(v)
    world.watch(env, ENV)
    for name, rank in (("channel_registry", REGISTRY), ("type_registry", REGISTRY), ("enum_registry", ENUMS), ("event_queue", EVENTS)):
        world.watch(getattr(env, name), rank)
    watch_queue(world, env.frame_queue)
    keeper = TimeKeeper("time", 0.5, 1.0, lambda: 1.0, lambda t: world.waits("sleep"))
    world.watch(keeper, KEEPER)
    writer = StreamWriter("out", _q.Queue(), None, v.choose("writer metrics", [env, None]))
    world.watch(writer, DAEMON)
    clients = QueueClientManager("clients", writer)
    world.watch(clients, SERVER)
    hosts = ucm.UdpClientManager(writer)
    world.watch(hosts, UDP)
    group = ChannelGroup("group", env)
    group.add_channel("a", Primitive.INT8, 0.0, True)
    manager = DaemonManager()
    world.watch(manager, MANAGER)
    count = [0]

    def output(**kw):
        return Output(v, world, v.choose("output works", [True, True, False]), **kw)

    def fresh():
        count[0] += 1
        return "n%d" % count[0]

    def frames():
        for _ in range(v.choose("channels", [0, 1, 30])):
            env.add_channel(fresh(), Primitive.DOUBLE, 0.0, True)
        for cid in range(env.channel_registry.curr_id):
            v.outcome(lambda: env.set_now(cid, v.choose("set", [0, 1, 2, 0.5, True])))
        while env.frame_queue.qsize() > 200:
            env.frame_queue.get()
        v.choose("dispatch", [env.dispatch_now, lambda: env.dispatch(2.0), lambda: env.dispatch_data(3.0), lambda: env.dispatch_events(4.0)])()

    def write():
        writer.handle(build_dummy_frame(v.choose("size", [64, 200])))

    def add_queue():
        qid = writer.add_queue(output())
        return qid

    def client():
        qid, _ = clients.add_client_queue(v.choose("named", [None, Host("host", 1000 + count[0])]) if writer.env else None)
        count[0] += 1
        writer.queues[qid] = output()

    def host():
        sock = Output(v, world, True, but=(UDP,))
        sock.ok = v.choose("socket works", [True, True, False])
        old = ucm.create_udp_socket, ucm.discover_mtu
        ucm.create_udp_socket, ucm.discover_mtu = (lambda *_: sock), (lambda *_: 1000)
        try:
            hosts.add_client(Host("host", 5), v.choose("flush", [True, False]))
        finally:
            ucm.create_udp_socket, ucm.discover_mtu = old

    def drop_host():
        known = list(hosts.clients) + [77]
        sid = known[v.index("client", len(known))]
        v.choose("by", [lambda: hosts.remove_client(sid), hosts.remove_all, lambda: remove_client(hosts, {"id": sid}),
                        lambda: list_client(hosts, {}), lambda: hosts.closer(sid)])()

    def section(ctx):
        with ctx:
            world.waits("the user's section")

    def file():
        with tempfile.TemporaryDirectory() as where:
            section(writer.add_file(Path(where, "out"), v.bool("flush")))

    def daemon():
        kind = v.choose("kind", ["plain", "queue"])
        if kind == "plain":
            task = Daemon(fresh(), lambda: world.waits("task"), 0.001, None, None, v.choose("metered", [env, None]),
                          v.choose("keeper", [keeper, None]))
            task.function["inject_stop"] = lambda: world.waits("inject_stop")
        else:
            source = _q.Queue()
            task = StreamWriter(fresh(), source, None, v.choose("metered", [env, None]))
            watch_queue(world, source)
        world.watch(task, DAEMON)
        manager.add_daemon(task, None)
        join = []
        for _ in range(v.choose("cycles", [1, 2])):
            if not task.start():
                break
            thread = task.thread
            join.append(thread)

            def watched(timeout=None, fn=thread.join):
                world.waits("join", (MANAGER,))
                return fn(timeout)

            thread.join = watched
            for _ in range(v.choose("ops", [0, 1, 3])):
                v.choose("op", [task.pause, task.unpause, manager.states, lambda: manager.perform(task.name, DaemonOperation.UNPAUSE)])()
            v.outcome(task.unpause)
            end = _time() + 5
            while task.get_state().name != "RUNNING" and _time() < end:
                pass
            v.choose("end", [task.stop, task.restart if kind == "plain" else task.stop])()
            while task.get_state().name != "IDLE" and _time() < end:
                task.stop()

    def server():
        class Sockets:
            StreamRequestHandler = object

            def __init__(self, *_):
                self.server_address = ("host", 5)

            def ThreadingTCPServer(*_):
                return Sockets()

            def shutdown(self):
                world.waits("shutdown")

        old = tcp.socketserver
        tcp.socketserver = Sockets
        try:
            task = tcp.TcpTelemetryDaemon(fresh(), writer, env)
        finally:
            tcp.socketserver = old
        world.watch(task, SERVER)
        for sid in range(v.choose("clients", [0, 1, 3])):
            task.client_sems[1000 + sid] = Output(v, world, True)
        task.function["inject_stop"]()

    def handler():
        class Gone(Exception):
            """No further."""

        class Sem(Output):
            def acquire(self):
                self.world.waits("acquire")
                raise Gone

        one = tcp.TcpTelemetryHandler.__new__(tcp.TcpTelemetryHandler)
        one.client_address, one.wfile = ("host", 5), Output(v, world)
        task = Daemon(fresh(), lambda: None, 1.0)
        world.watch(task, SERVER)
        task.writer, task.client_sems = writer, {}
        one.server = type("Server", (), {"daemon": task})()
        real = writer.add_semaphore_stream
        writer.add_semaphore_stream = lambda stream: (real(stream)[0], Sem(v, world))
        try:
            one.handle()
        finally:
            del writer.add_semaphore_stream

    ops = {
        "frames": frames, "frames again": frames, "write": write, "write again": write,
        "add stream": lambda: writer.add_stream(output(), v.choose("closer", [None, output().close]), v.bool("flush")),
        "remove stream": lambda: writer.remove_stream(v.choose("id", [0, 1, 2, 3, 9])),
        "add queue": add_queue, "remove queue": lambda: writer.remove_queue(v.choose("id", [0, 1, 2, 3, 9])),
        "client": client, "close clients": clients.close_clients, "host": host, "drop host": drop_host,
        "stream section": lambda: section(writer.stream_added(output(), output().close)), "file": file,
        "group section": lambda: section(group.data()), "group": lambda: v.choose("op", [group.read, lambda: group.write({"a": 5})])(),
        "time": lambda: v.choose("op", [keeper.iteration, keeper.set_slaves, lambda: keeper.sleep(1.0), lambda: keeper.add_slave(env)])(),
        "daemon": daemon, "server": server, "handler": handler,
        "enum": lambda: env.enum_registry.export(env.type_registry),
        "metric": lambda: env.add_metric(fresh(), Primitive.UINT32, True, (0, None)),
    }
    for _ in range(v.int("steps", 1, 12)):
        op = v.choose("operation", sorted(ops))
        v.outcome(ops[op])
        v.check("%s: %s" % (op, world.bad[0] if world.bad else "nothing waits under a lock, locks are taken in order"), not world.bad)


def _time():
    import time

    return time.monotonic()
