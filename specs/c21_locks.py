"""C21: locks are released on every exit path.

Every operation is verified on an object whose attributes, arguments and
collaborators are unknown (``Wild``): each use of them may raise or give
anything. Whatever happens, each lock is held exactly as often afterwards as
before the operation (the calling thread may already hold it).
"""
from pyvc import wild
from pyvc.api import search, unit
from pyvc.loops import LoopSpec
from pyvc.wild import Havoc, Stop, Wild

from .c18_machines import environment

OPTS = {"mbqi": False, "branch_ms": 500}
RAISES = (Havoc, Stop)


# -- locks --------------------------------------------------------------------
def is_lock(x):
    from pyvc import models_threading as m

    import threading

    return isinstance(x, (m.RLock, type(threading.RLock()), type(threading.Lock())))


def locks_of(*roots):
    """The locks of objects, by where they are."""
    from vtelem.classes.time_entity import OptionalRLock

    out, seen, todo = {}, set(), [(type(r).__name__, r) for r in roots]
    while todo:
        path, x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if is_lock(x):
            out[path] = x
        elif isinstance(x, OptionalRLock) or (type(x).__module__.startswith("vtelem") and hasattr(x, "__dict__")):
            todo.extend(("%s.%s" % (path, k), y) for k, y in vars(x).items())
        elif isinstance(x, dict) and len(x) < 50:
            todo.extend((path + "[]", y) for y in list(x.values()))
    return out


def depth_of(lock):
    return lock.depth


class Rounds(LoopSpec):
    """Any loop: an iteration leaves the locks as they were."""

    name = "rounds"

    def match_for(self, seq, key, n):
        return True

    def match_while(self, key, n, locs):
        return True

    def inv(self, S, k):
        if not hasattr(S.cut, "held"):
            S.cut.held = {p: depth_of(x) for p, x in S.g.locks.items()}
        return [("locks are held as before", S.ctx.And(*[S.ctx.same(depth_of(x), S.cut.held[p]) for p, x in S.g.locks.items()]))]

    def havoc(self, S, k):
        out = {}
        for name, val in S.locals.items():
            if name.startswith("_vc") or name not in S.cut.names and not isinstance(val, (list, dict, set)):
                continue
            if isinstance(val, bool) or type(val).__module__.startswith(("vtelem", "pyvc.sym")) and type(val) is not Wild and name != "_comp":
                continue
            out[name] = Wild(name, S.g.raises)
        return {n: x for n, x in out.items() if n in S.cut.names or n in S.g.used_names}

    def modifies(self, S):
        return list(S.g.locks.values()) + [S.g]

    def frame_ok(self, S, obj, path, lab, old, new):
        # what else a round changes is unknown to begin with
        return True


def unknown(v, obj, keep=(), optional=()):
    """Forget everything about an object but its locks and methods."""
    from vtelem.classes.time_entity import OptionalRLock

    for name, val in list(vars(obj).items()):
        if name in keep or isinstance(val, (OptionalRLock, str)) or is_lock(val):
            continue
        if name in optional and v.choose("%s.%s" % (type(obj).__name__, name), ["none", "some"]) == "none":
            setattr(obj, name, None)
        else:
            setattr(obj, name, Wild(name, v.g.raises))
    return obj


def guarded(v, obj, fn):
    """Run an operation; its locks are as before."""
    g = v.g
    g.locks = locks_of(*obj) if isinstance(obj, tuple) else locks_of(obj)
    v.check("there is something to guard with", len(g.locks) > 0)
    before = {}
    for path, lock in g.locks.items():
        if type(lock).__name__ == "RLock":
            lock.depth = v.int("held " + path, 0)
        before[path] = lock.depth
    out = outcome(v, fn)
    for path, lock in g.locks.items():
        v.check("every lock is held as before", v.same(lock.depth, before[path]))
    for path, lock in (locks_of(*obj) if isinstance(obj, tuple) else locks_of(obj)).items():
        if path not in before:
            v.check("a new lock is not held", v.same(lock.depth, 0))
    return out


def swapped(v, mod, names, fn):
    """With classes of other modules unknown, too."""
    import importlib

    m = importlib.import_module(mod)
    old = {n: getattr(m, n) for n in names}
    for n in names:
        setattr(m, n, Wild(n, v.g.raises))
    try:
        return fn()
    finally:
        for n in names:
            setattr(m, n, old[n])


def outcome(v, fn):
    from pyvc.core import PathEnd

    try:
        return v.outcome(fn)
    except (Stop, KeyboardInterrupt) as exc:
        if v.dead:
            raise PathEnd("dead") from exc
        return ("raise", type(exc), exc)


def start(v, raises=RAISES):
    wild.USED = True
    v.g.raises = raises
    v.g.locks = {}
    v.g.used_names = ()
    return lambda label="arg": Wild(label, raises)


# -- the lock itself ----------------------------------------------------------
@unit("C21/optional", props="C21", funcs=["vtelem.classes.time_entity:OptionalRLock." + n for n in ("__init__", "__enter__", "__exit__")],
      concrete=False)
def u_optional(v):
    """A guarded section, nested or not, ended in any way."""
    import threading

    from vtelem.classes.time_entity import LockEntity, OptionalRLock

    start(v)
    real = v.choose("real", [True, False])
    item = object()
    kind = v.choose("kind", ["lock", "entity"])
    lock = OptionalRLock(real, item) if kind == "lock" else LockEntity(real).lock
    held = v.int("held", 0)
    if real:
        v.check("starts free", lock.lock.depth == 0)
        lock.lock.depth = held
    else:
        v.check("no lock", lock.lock is None)
    depth = v.choose("nested", [1, 2, 3])
    end = v.choose("ends", ["normal", "exception", "other", "return"])
    reached = []

    def body(level):
        with lock as got:
            v.check("the item is given", got is (item if kind == "lock" else None))
            if real:
                v.check("held inside", v.same(lock.lock.depth, held + level))
            if level < depth:
                return body(level + 1)
            reached.append(1)
            if end == "exception":
                raise Havoc("inside")
            if end == "other":
                raise Stop("inside")
            if end == "return":
                return 5
        return 6

    out = outcome(v, lambda: body(1))
    v.check("the section ran", reached == [1])
    if end in ("exception", "other"):
        v.check("the exception is passed on", out[0] == "raise" and out[1] is (Havoc if end == "exception" else Stop))
    else:
        v.check("ends normally", out == ("ok", 5 if end == "return" else 6))
    if real:
        v.check("released as often as acquired", v.same(lock.lock.depth, held))


# -- registries ---------------------------------------------------------------
REG = ["vtelem.registry:Registry." + n for n in ("get_item", "get_id", "add", "count", "describe", "describe_raw")]


@unit("C21/registry", props="C21", funcs=REG + ["vtelem.registry.enum:EnumRegistry." + n for n in (
    "get_enum", "add_from_enum", "add_enum", "describe", "export")] + [
    "vtelem.registry.channel:ChannelRegistry.add_channel", "vtelem.registry.type:TypeRegistry.get_type"],
    loops=[Rounds], concrete=False, opts=OPTS)
def u_registry(v):
    from vtelem.channel.registry import ChannelRegistry
    from vtelem.registry import Registry
    from vtelem.registry.enum import EnumRegistry
    from vtelem.registry.type import TypeRegistry

    w = start(v)
    kind = v.choose("kind", ["plain", "type", "channel", "enum"])
    reg = {"plain": lambda: Registry("things"), "type": TypeRegistry, "channel": ChannelRegistry, "enum": EnumRegistry}[kind]()
    if v.choose("data", ["unknown", "broken"]) == "unknown":
        reg.data = Wild("data", v.g.raises)
    else:
        reg.data = {reg.type_name: Wild("items", v.g.raises), "mappings": Wild("mappings", v.g.raises),
                    "global_mappings": Wild("global", v.g.raises)}
    reg.curr_id = Wild("id", v.g.raises)
    ops = {"get_item": lambda: reg.get_item(w()), "get_id": lambda: reg.get_id(w()), "add": lambda: reg.add(w("name"), w("item")),
           "count": reg.count, "describe": lambda: reg.describe(w()), "describe_raw": lambda: reg.describe_raw(w(), w())}
    if kind == "type":
        ops["get_type"] = lambda: reg.get_type(w())
    if kind == "channel":
        ops["add_channel"] = lambda: reg.add_channel(w())
        ops["get_channel_type"] = lambda: reg.get_channel_type(w())
    if kind == "enum":
        for op in ("get_enum", "add_enum", "export", "add_from_enum"):
            ops[op] = lambda op=op: getattr(reg, op)(w())
    op = v.choose("operation", sorted(ops))
    guarded(v, reg, ops[op])


@unit("C21/enums", props="C21", funcs=["vtelem.registry.enum_retry:EnumRegistry." + n for n in ("init", "add", "add_from_enum", "get_enum")],
      loops=[Rounds], concrete=False, opts=OPTS)
def u_enums(v):
    from vtelem.registry.enum_retry import EnumRegistry

    w = start(v)
    reg = unknown(v, EnumRegistry())
    reg.coerce_int_keys = w("coerce_int_keys")
    op = v.choose("operation", ["init", "add", "add_from_enum", "get_enum"])
    swapped(v, "vtelem.registry.enum_retry", ["UserEnum", "from_enum"], lambda: guarded(v, reg, lambda: getattr(reg, op)(w())))


# -- environments -------------------------------------------------------------
CE = ("handle_new_mtu", "register_base_metrics", "has_metric", "add_metric", "get_metric", "set_now", "get_value", "set_metric_rate",
      "set_metric", "metric_add", "set_channel_rate", "has_channel", "command_channel_id", "command_channel", "add_channel", "dispatch",
      "get_next_frame", "dispatch_events", "dispatch_data", "dispatch_now")
TE = ("command_enum_channel_id", "command_enum_channel", "is_enum_channel", "add_enum_channel", "add_enum_metric", "set_enum_metric",
      "get_enum_metric", "get_enum_value", "set_enum_now", "add_from_enum", "has_enum", "add_enum")
TM = ("advance_time", "set_time", "get_time")
ARITY = {"has_metric": 1, "get_metric": 1, "get_value": 1, "has_channel": 1, "handle_new_mtu": 1, "register_base_metrics": 1,
         "dispatch": 1, "get_next_frame": 0, "dispatch_events": 1, "dispatch_data": 1, "dispatch_now": 0, "is_enum_channel": 1,
         "get_enum_metric": 1, "get_enum_value": 1, "add_from_enum": 1, "has_enum": 1, "add_enum": 1, "add_channel": 3,
         "add_enum_channel": 3, "advance_time": 1, "set_time": 1, "get_time": 0}


class Pairs:
    """Gives two numbers, or raises."""

    def __init__(self, v):
        self.v = v

    def __call__(self, *_, **__):
        if self.v.choose("building", ["works", "fails"]) == "fails":
            raise Havoc("building")
        return self.v.int("frames", 0), self.v.int("items", 0)


def env_unit(names, label):
    @unit("C21/%s" % label, props="C21", funcs=["vtelem.channel.environment:ChannelEnvironment." + n for n in names if n in CE] + [
        "vtelem.telemetry.environment:TelemetryEnvironment." + n for n in names if n in TE] + [
        "vtelem.classes.time_entity:TimeEntity." + n for n in names if n in TM],
        loops=[Rounds], concrete=False, opts=OPTS)
    def run(v):
        from vtelem.telemetry.environment import TelemetryEnvironment

        op = v.choose("operation", sorted(names))
        w = start(v, (Havoc,))
        env = TelemetryEnvironment(2 ** 10)
        unknown(v, env, optional=("metrics",), keep=("log_data",))
        if op.startswith("dispatch"):
            # what was built are pairs
            env.framer.__dict__.update({name: Pairs(v) for name in ("build_event_frames", "build_data_frames")})
        args = [w() for _ in range(ARITY.get(op, 2))]
        if op in ("add_channel", "add_enum_channel", "add_enum_metric", "add_metric"):
            given = v.choose("given", ["nothing", "all"])
            kwargs = {} if given == "nothing" else {"track_change": w(), "initial": w()}
        else:
            kwargs = {}
        swapped(v, "vtelem.channel.environment", ["Channel"], lambda: guarded(v, env, lambda: getattr(env, op)(*args, **kwargs)))

    return run


env_unit([n for n in CE if n not in ("add_channel", "dispatch", "dispatch_now", "add_metric", "register_base_metrics", "command_channel")], "environment")
env_unit(["add_channel", "command_channel"], "channels")
env_unit(["dispatch", "dispatch_now"], "dispatch")
env_unit([n for n in TE if n not in ("add_enum_channel", "add_enum_metric", "add_from_enum", "add_enum")] + list(TM), "telemetry")

env_unit(["add_enum", "add_from_enum", "add_enum_channel"], "adding")
env_unit(["add_metric", "add_enum_metric", "register_base_metrics"], "metrics")


def run_context(make, body, v):
    """A context whose body ends in any way."""
    def fn():
        with make() as data:
            body(data)
            how = v.choose("body", ["ends", "raises", "worse", "returns"])
            if how == "raises":
                raise Havoc("body")
            if how == "worse":
                raise Stop("body")
            if how == "returns":
                return 1
        return 0
    return fn


@unit("C21/group", props="C21", funcs=["vtelem.channel.group:ChannelGroup." + n for n in (
    "read", "write", "data", "add_channel", "add_enum_channel")], loops=[Rounds], concrete=False, opts=OPTS)
def u_group(v):
    from vtelem.channel.group import ChannelGroup
    from vtelem.classes.time_entity import OptionalRLock

    w = start(v)
    env = Wild("environment", RAISES, lock=OptionalRLock(True))
    group = ChannelGroup("group", env)
    group.channels = w("channels")
    op = v.choose("operation", ["read", "write", "data", "add_channel", "add_enum_channel"])
    if op == "data":
        fn = run_context(group.data, lambda data: None, v)
    elif op.startswith("add"):
        from vtelem.enums.primitive import Primitive

        fn = lambda: getattr(group, op)(w(), Primitive.BOOLEAN if op == "add_channel" else w(), w())
    else:
        fn = (lambda: group.write(w())) if op == "write" else group.read
    guarded(v, (group, env.lock), fn)


@unit("C21/framer", props="C21", funcs=["vtelem.channel.framer:ChannelFramer." + n for n in ("build_event_frames", "build_data_frames", "add_channel")] + [
    "vtelem.classes.event_queue:EventQueue." + n for n in ("enqueue", "consume")], loops=[Rounds], concrete=False, opts=OPTS)
def u_framer(v):
    from vtelem.channel.framer import ChannelFramer
    from vtelem.classes.event_queue import EventQueue
    from vtelem.classes.time_entity import OptionalRLock

    op = v.choose("operation", ["build_data_frames", "add_channel", "enqueue", "consume"])
    w = start(v, (Havoc,))
    if op in ("enqueue", "consume"):
        queue = unknown(v, EventQueue())
        guarded(v, queue, (lambda: queue.enqueue(w(), w(), w())) if op == "enqueue" else queue.consume)
        return
    framer = unknown(v, ChannelFramer(2 ** 10, None, [], OptionalRLock(True)))
    framer.new_data_frame = w("frame")
    guarded(v, framer, (lambda: framer.build_data_frames(w(), w())) if op == "build_data_frames" else lambda: framer.add_channel(w()))


# -- time ---------------------------------------------------------------------
@unit("C21/time", props="C21", funcs=["vtelem.classes.time_keeper:TimeKeeper." + n for n in (
    "iteration", "add_slave", "set_slaves", "scale", "sleep")] + ["vtelem.classes.time_entity:TimeEntity." + n for n in TM],
    loops=[Rounds], concrete=False, opts=OPTS)
def u_time(v):
    from vtelem.classes.time_entity import TimeEntity
    from vtelem.classes.time_keeper import TimeKeeper

    w = start(v)
    kind = v.choose("kind", ["entity", "keeper"])
    entity = TimeEntity() if kind == "entity" else TimeKeeper("time", 0.5, 1.0, lambda: 0.0, lambda t: None)
    unknown(v, entity)
    ops = {"advance_time": 1, "set_time": 1, "get_time": 0}
    if kind == "keeper":
        ops.update({"iteration": 0, "add_slave": 1, "set_slaves": 0, "scale": 1, "sleep": 1, "set_rate": 1, "get_rate": 0})
    op = v.choose("operation", sorted(ops))
    guarded(v, entity, lambda: getattr(entity, op)(*[w() for _ in range(ops[op])]))


# -- machines -----------------------------------------------------------------
@unit("C21/machine", props="C21", funcs=["vtelem.classes.state_machine:StateMachine." + n for n in ("data", "run")],
      loops=[Rounds], concrete=False, opts=OPTS)
def u_machine(v):
    from vtelem.classes.state import State
    from vtelem.classes.state_machine import StateMachine

    w = start(v)
    machine = StateMachine("machine", [State("only")])
    op = v.choose("operation", ["data", "run"])
    unknown(v, machine, optional=("metrics",) if op == "run" else ())
    if op == "data":
        fn = run_context(machine.data, lambda data: None, v)
    else:
        given = v.choose("given", ["nothing", "data"])
        fn = lambda: machine.run(None if given == "nothing" else w())
    guarded(v, machine, fn)


# -- daemons ------------------------------------------------------------------
DAEMON = {"set_state": 1, "set_env_metric": 2, "reset_metric": 1, "increment_metric": 1, "decrement_metric": 1, "run_harness": 0,
          "start": 0, "pause": 0, "unpause": 0, "begin_stop": 0, "stop": 0, "get_state": 0, "get_state_str": 0, "get_time": 0,
          "set_rate": 1, "perform": 1}


@unit("C21/daemon", props="C21", funcs=["vtelem.daemon:DaemonBase." + n for n in DAEMON if n != "set_rate"] + [
    "vtelem.daemon.synchronous:Daemon." + n for n in ("set_rate", "run")], loops=[Rounds], concrete=False, opts=OPTS)
def u_daemon(v):
    from vtelem.daemon.synchronous import Daemon
    from vtelem.enums.daemon import DaemonState

    op = v.choose("operation", sorted(DAEMON))
    w = start(v, (Havoc,))
    daemon = Daemon("task", lambda: None, 1.0)
    unknown(v, daemon, keep=("state",))
    daemon.state = v.choose("state", list(DaemonState))
    if op not in ("set_state", "set_env_metric", "reset_metric", "increment_metric", "decrement_metric"):
        # their contracts: whatever they do, the locks are left alone
        for name in ("set_state", "reset_metric", "increment_metric", "set_env_metric"):
            setattr(daemon, name, w(name))
    if op == "perform":
        from vtelem.enums.daemon import DaemonOperation

        daemon.daemon_ops = w("operations")
        fn = lambda: daemon.perform(DaemonOperation.START)
    else:
        args = [w() for _ in range(DAEMON[op])]
        if op == "set_state":
            args = [v.choose("new", list(DaemonState))]
        fn = lambda: getattr(daemon, op)(*args)
    guarded(v, daemon, fn)


@unit("C21/task", props="C21", funcs=["vtelem.daemon.synchronous:Daemon.run", "vtelem.daemon:DaemonBase.run_harness"],
      loops=[Rounds], concrete=False, opts=OPTS)
def u_task(v):
    from vtelem.daemon.synchronous import Daemon

    w = start(v, (Havoc,))
    daemon = unknown(v, Daemon("task", lambda: None, 1.0))
    for name in ("set_state", "increment_metric", "set_env_metric", "get_time"):
        setattr(daemon, name, w(name))
    guarded(v, daemon, daemon.run)


@unit("C21/manager", props="C21", funcs=["vtelem.daemon.manager:DaemonManager." + n for n in (
    "add_daemon", "perform", "perform_str", "perform_all", "perform_str_all", "perform_stack", "states")], loops=[Rounds], concrete=False, opts=OPTS)
def u_manager(v):
    from vtelem.daemon.manager import DaemonManager
    from vtelem.enums.daemon import DaemonOperation

    op = v.choose("operation", ["add_daemon", "perform", "perform_str", "perform_all", "perform_str_all", "perform_stack", "states"])
    w = start(v, (Havoc,))
    manager = unknown(v, DaemonManager())
    verb = v.choose("verb", ["start", "nonsense"])
    if op == "perform_all":
        manager.perform_stack = w("perform_stack")
    if op == "perform_stack":
        manager.perform = w("perform")
    fn = {"add_daemon": lambda: manager.add_daemon(w(), w()), "perform": lambda: manager.perform(w(), DaemonOperation.STOP),
          "perform_str": lambda: manager.perform_str(w(), verb), "perform_all": lambda: manager.perform_all(DaemonOperation.STOP),
          "perform_str_all": lambda: manager.perform_str_all(verb), "states": lambda: manager.states(w()),
          "perform_stack": lambda: manager.perform_stack(w(), w(), w(), DaemonOperation.STOP)}[op]
    if op == "perform_str_all":
        manager.perform_all = w("perform_all")
    guarded(v, manager, fn)


# -- outputs ------------------------------------------------------------------
WRITER = {"get_queue": 0, "add_queue": 1, "registered_queue": -1, "add_stream": 1, "stream_added": -1, "add_file": 1,
          "add_semaphore_stream": 1, "remove_stream": 1, "remove_queue": 1, "handle": 1}


@unit("C21/writer", props="C21", funcs=["vtelem.stream.writer:StreamWriter." + n for n in WRITER if n != "handle"] + [
    "vtelem.stream.writer:StreamWriter.__init__"], loops=[Rounds], concrete=False, opts=OPTS)
def u_writer(v):
    from vtelem.stream.writer import StreamWriter

    op = v.choose("operation", sorted(WRITER))
    w = start(v, (OSError,) if op == "handle" else (Havoc,))
    writer = StreamWriter("out", None)
    unknown(v, writer, keep=("handle",), optional=("error_handle",))
    for name in ("increment_metric", "decrement_metric", "reset_metric"):
        setattr(writer, name, w(name))
    if op == "handle":
        writer.remove_stream = w("remove_stream")
    if WRITER[op] < 0:
        fn = run_context(lambda: getattr(writer, op)(*([w()] if op == "stream_added" else [])), lambda data: None, v)
    else:
        fn = lambda: getattr(writer, op)(*[w() for _ in range(WRITER[op])])
    swapped(v, "vtelem.stream.writer", ["Queue"], lambda: guarded(v, writer, fn))


@unit("C21/clients", props="C21", funcs=["vtelem.classes.udp_client_manager:UdpClientManager." + n for n in (
    "add_client", "remove_all", "remove_client", "__init__")] + [
    "vtelem.factories.udp_client_manager:" + n for n in ("add_client", "remove_client", "list_client")], loops=[Rounds], concrete=False, opts=OPTS)
def u_clients(v):
    import vtelem.factories.udp_client_manager as factory
    from vtelem.classes.udp_client_manager import UdpClientManager

    op = v.choose("operation", ["add_client", "remove_all", "remove_client", "closer",
                                "command add", "command remove", "command list"])
    w = start(v, (OSError,) if op == "closer" else (Havoc,))
    writer = w("writer")
    writer.__dict__["error_handle"] = None
    manager = UdpClientManager(writer)
    unknown(v, manager, keep=("closer",))
    if op.startswith("command"):
        for name in ("add_client", "remove_client", "client_name"):
            setattr(manager, name, w(name))
        fn = lambda: getattr(factory, op[8:] + "_client")(manager, w("command"))
    else:
        if op != "closer":
            manager.closer = w("closer")
        if op == "remove_all":
            manager.remove_client = w("remove_client")
        fn = lambda: getattr(manager, op)(*[w() for _ in range(0 if op == "remove_all" else 1)])
    swapped(v, "vtelem.classes.udp_client_manager", ["create_udp_socket", "discover_mtu"], lambda: guarded(v, manager, fn))


# -- real objects -------------------------------------------------------------
def held_locks(roots):
    """Names of the locks that another thread cannot take."""
    import threading

    bad = []

    def probe():
        for path, lock in locks_of(*roots).items():
            if lock.acquire(blocking=False):
                lock.release()
            else:
                bad.append(path)

    thread = threading.Thread(target=probe)
    thread.start()
    thread.join()
    return bad


@search("C21")
def search_locks(v):
    """Real objects, used wrongly and with failing collaborators."""
    import enum
    import queue as _q

    from vtelem.channel.group import ChannelGroup
    from vtelem.classes.event_queue import EventQueue
    from vtelem.classes.state import State
    from vtelem.classes.state_machine import StateMachine
    from vtelem.classes.time_keeper import TimeKeeper
    from vtelem.classes.time_entity import OptionalRLock
    from vtelem.classes.udp_client_manager import UdpClientManager
    from vtelem.classes.user_enum import from_enum
    from vtelem.daemon.manager import DaemonManager
    from vtelem.daemon.synchronous import Daemon
    from vtelem.enums.daemon import DaemonOperation
    from vtelem.enums.primitive import Primitive
    from vtelem.mtu import Host
    from vtelem.registry import Registry
    from vtelem.registry.enum_retry import EnumRegistry as Retry
    from vtelem.stream.writer import StreamWriter

    class Color(enum.IntEnum):
        RED = 0
        BLUE = 1

    class Broken:
        """Whatever is done with it fails."""

        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)

            def fail(*_, **__):
                raise v.choose("failure", [Havoc, OSError, KeyError])("broken")
            return fail

    env = environment(v)
    group = ChannelGroup("group", env)
    group.add_channel("a", Primitive.INT8, 1.0)
    tasks = {n: Daemon(n, lambda: None, 1.0) for n in ("one", "two")}
    manager = DaemonManager()
    state = State("s")
    machine = StateMachine("machine", [state])
    clock = [0.0]
    keeper = TimeKeeper("time", 0.5, 1.0, lambda: clock[0] + 0, lambda t: None)
    reg, retry, events = Registry("things"), Retry(), EventQueue()
    writer = StreamWriter("out", _q.Queue())
    clients = UdpClientManager(writer)
    lock = OptionalRLock(True, 5)
    roots = [env, env.channel_registry, env.enum_registry, env.type_registry, group, machine, keeper, reg, retry, events, writer, clients,
             manager, lock] + list(tasks.values())
    bad_key = v.choose("bad", [[], {}, None, "unknown", 99999])

    def nested():
        with lock, env.lock, keeper.lock:
            with lock:
                raise Havoc("inside")

    def with_data(ctx):
        with ctx() as data:
            if v.choose("how", ["raise", "spoil"]) == "raise":
                raise Havoc("inside")
            data["unknown"] = 5

    def follower():
        keeper.slaves.append(Broken())
        try:
            v.choose("via", [keeper.set_slaves, keeper.iteration])()
        finally:
            keeper.slaves.clear()

    def broken(obj, name, fn, what=None):
        old = getattr(obj, name)
        setattr(obj, name, Broken() if what is None else what)
        try:
            fn()
        finally:
            setattr(obj, name, old)

    def state_change(daemon):
        old = daemon.function["state_change"]
        daemon.function["state_change"] = Broken().anything
        try:
            daemon.perform(v.choose("op", list(DaemonOperation)))
        finally:
            daemon.function["state_change"] = old

    def hook():
        state.run = Broken().run
        try:
            machine.run(v.choose("data", [None, {"x": 1}, 5]))
        finally:
            del state.run

    def not_serial():
        reg.add(v.str("name"), object())
        reg.describe(True)

    ops = {
        "registry": lambda: v.choose("op", [reg.get_id, reg.get_item, lambda k: reg.add(k, 5)])(bad_key),
        "describe": not_serial,
        "channel": lambda: env.add_channel(v.choose("name", ["group.a", "x", bad_key]), Primitive.INT8, 1.0, False,
                                           v.choose("initial", [None, (300, None), (5, 1.0), ("text", None)])),
        "command": lambda: env.command_channel(v.choose("name", ["group.a", "nothing", bad_key]), v.choose("value", [5, 300, "x", None])),
        "command id": lambda: env.command_channel_id(v.choose("id", [0, 1, 77, bad_key]), v.choose("value", [5, 300, "x", None])),
        "enum": lambda: env.add_enum(v.choose("enum", [from_enum(Color), None])),
        "has enum": lambda: env.has_enum(None),
        "enum channel": lambda: env.add_enum_channel("e", v.choose("enum", ["color", "none"]), 1.0, False, v.choose("init", [None, ("red", None), ("pink", None)])),
        "export": lambda: env.enum_registry.export(v.choose("to", [env.type_registry, Broken()])),
        "dispatch": lambda: env.dispatch(v.choose("time", [5.0, None])),
        "dispatch broken": lambda: broken(env, v.choose("what", ["frame_queue", "event_queue", "framer"]), lambda: env.dispatch(7.0)),
        "mtu": lambda: env.handle_new_mtu(v.choose("mtu", [100, "x"])),
        "metric": lambda: env.set_metric("channel_count", v.choose("value", [3, -1, "x"])),
        "time": lambda: v.choose("entity", [env, keeper]).advance_time(v.choose("amount", [1.0, "x", None])),
        "set time": lambda: env.set_time(1.0),
        "clock": lambda: broken(keeper, "time_function", keeper.iteration, Broken().anything),
        "follower": follower, "add follower": lambda: keeper.add_slave(Broken()), "scale": lambda: keeper.scale(v.choose("scale", [1.0, "x", -1.0])),
        "group": lambda: v.choose("op", [group.read, lambda: group.write({"a": 5}), lambda: group.write({"b": 5}), lambda: group.write(5)])(),
        "group broken": lambda: broken(group, "channels", v.choose("op", [group.read, lambda: group.write({"a": 1})]), {"a": {}}),
        "group data": lambda: with_data(group.data), "machine data": lambda: with_data(machine.data), "machine": hook, "nested": nested,
        "events": lambda: broken(events, "queue", lambda: events.consume()),
        "daemon": lambda: state_change(v.choose("which", list(tasks.values()))),
        "rate": lambda: tasks["one"].set_rate(v.choose("rate", [1.0, -1.0, "x"])),
        "add daemon": lambda: manager.add_daemon(v.choose("which", [tasks["one"], tasks["two"], None]), v.choose("deps", [None, ["one"], 5])),
        "perform": lambda: broken(manager, "daemons", v.choose("op", [
            lambda: manager.perform("x", DaemonOperation.STOP), lambda: manager.perform_all(DaemonOperation.STOP), manager.states]), {"x": Broken()}),
        "retry": lambda: retry.add_from_enum(Color), "retry bad": lambda: retry.add(None), "retry init": lambda: retry.init({"mappings": {"a": "b"}}),
        "file": lambda: writer.add_file(v.choose("file", [None, 5])), "remove": lambda: writer.remove_stream(v.choose("id", [0, bad_key])),
        "closer": lambda: writer.remove_stream(writer.add_stream(Broken(), Broken().close)), "queue": lambda: writer.remove_queue(bad_key),
        "client": lambda: clients.remove_client(bad_key), "close": lambda: clients.closer(bad_key), "name": lambda: clients.client_name(bad_key),
    }
    for _ in range(v.int("steps", 1, 25)):
        op = v.choose("operation", sorted(ops))
        v.outcome(ops[op])
        bad = held_locks(roots)
        v.check("every lock is free after '%s'" % op, not bad)
