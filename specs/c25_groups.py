"""C25: channel groups read and write their channels as one."""
from pyvc.api import contract, search, unit
from pyvc.loops import LoopSpec

from ._common import any_prim, fits, primitives, value_of
from ._wire import draw_value
from .c13_registry import fill
from .c14_enums import Content, draw_content

G = "vtelem.channel.group:ChannelGroup."
GR = "vtelem.channel.group_registry:ChannelGroupRegistry."
TE = "vtelem.telemetry.environment:TelemetryEnvironment."
CE = "vtelem.channel.environment:ChannelEnvironment."
FUNCS = [G + n for n in ("read", "write", "data", "add_channel", "add_enum_channel")]
ENV = [TE + n for n in ("get_enum_value", "set_enum_now", "add_enum_channel")] + [
    CE + n for n in ("get_value", "set_now", "add_channel")]


def environment(v, metered=False):
    from vtelem.telemetry.environment import TelemetryEnvironment

    return TelemetryEnvironment(2 ** 10, init_time=v.real("now", 0), metrics_rate=1.0 if metered else None, app_id_basis=0.5)


class Cell:
    """A channel, through its contract (C01): it takes what fits, and holds it."""

    def __init__(self, world, num):
        self.world, self.num = world, num

    def get(self):
        return self.world.state.get_item(self.num)

    def set(self, value, time=None):
        w = self.world
        w.v.check("assigned at the environment's time", time is not None and w.v.same(time, w.env.time))
        if w.v.branch(w.takes(self.num, value)):
            w.state[self.num] = value
            return True
        return False


class Enum:
    def __init__(self, world, kind):
        self.world, self.kind = world, kind

    def get_str(self, val):
        return self.world.text(self.kind, val)

    def get_value(self, s):
        return self.world.number(self.kind, s)


class World:
    """A group of m channels in an environment of any number of channels.

    Channel i of the group has name name(i) and identifier num(i), both
    injective; some are enumeration channels. 'state' maps identifiers to the
    current integer values.
    """

    def __init__(self, v):
        import z3

        from vtelem.channel.group import ChannelGroup

        from pyvc.sym import SInt, SMap, mk

        self.v = v
        self.env = environment(v)
        self.group = ChannelGroup("group", self.env)
        self.m = v.int("m", 0)
        I, S, B = z3.IntSort(), z3.StringSort(), z3.BoolSort()
        F = lambda nm, *s: z3.Function(v.fresh_name(nm), *s)
        self.name_f, self.at_name_f = F("name", I, S), F("at_name", S, I)
        self.num_f, self.at_num_f = F("num", I, I), F("at_num", I, I)
        self.enum_f, self.kind_f = F("is_enum", I, B), F("kind", I, I)
        self.text_f, self.number_f = F("text", I, I, S), F("number", I, S, I)
        self.start_f, self.takes_f = F("start", I, I), F("takes", I, I, B)
        # values to write: q of them, the j-th for channel sel(j)
        self.q = v.int("q", 0)
        self.sel_f, self.at_sel_f = F("sel", I, I), F("at_sel", I, I)
        self.new_f, self.new_text_f = F("new", I, I), F("new_text", I, S)
        self.entries, self.cells = [], []
        self.probe = v.int("probe")
        self.pname = v.str("probe name")
        reg = self.env.channel_registry
        reg.data[reg.type_name] = SMap(lambda k: True, self.cell, default=lambda: None, name="channels")
        self.env.enum_channel_types = SMap(lambda k: mk(self.enum_f(z(k))), lambda k: SInt(self.kind_f(z(k))),
                                           default=lambda: -1, name="enum channels")
        er = self.env.enum_registry
        er.data[er.type_name] = SMap(lambda k: True, lambda k: Enum(self, k), default=lambda: None, name="enums")
        self.group.channels = SMap(self.has_name, self.entry_of, keys=lambda i: self.name(i), n=self.m.t,
                                   tag="channels", name="group")
        self.state_at(z3.IntVal(0))

    # invariants
    def link(self, i):
        import z3

        from pyvc import core

        core.CUR.add(z3.Implies(z3.And(i >= 0, i < self.m.t), z3.And(
            self.at_name_f(self.name_f(i)) == i, self.at_num_f(self.num_f(i)) == i)))

    def link_value(self, j):
        import z3

        from pyvc import core

        i = self.sel_f(j)
        self.link(i)
        core.CUR.add(z3.Implies(z3.And(j >= 0, j < self.q.t), z3.And(
            self.at_sel_f(i) == j, i >= 0, i < self.m.t)))

    def name(self, i):
        from pyvc.sym import SStr

        self.link(z(i))
        return SStr(self.name_f(z(i)))

    def has_name(self, s):
        import z3

        from pyvc.sym import mk, zstr

        i = self.at_name_f(zstr(s))
        self.link(i)
        return mk(z3.And(i >= 0, i < self.m.t, self.name_f(i) == zstr(s)))

    def entry_of(self, s):
        import z3

        from pyvc.sym import SBool, SInt, zstr

        i = z3.simplify(self.at_name_f(zstr(s)))
        for key, entry in self.entries:
            if z3.eq(key, i):
                return entry
        self.link(i)
        entry = {"id": SInt(self.num_f(i)), "is_enum": SBool(self.enum_f(self.num_f(i)))}
        self.entries.append((i, entry))
        return entry

    def cell(self, num):
        import z3

        t = z3.simplify(z(num))
        for key, cell in self.cells:
            if z3.eq(key, t):
                return cell
        self.cells.append((t, Cell(self, num)))
        return self.cells[-1][1]

    def text(self, kind, val):
        from pyvc.sym import SStr

        return SStr(self.text_f(z(kind), z(val)))

    def number(self, kind, s):
        from pyvc.sym import SInt, zstr

        return SInt(self.number_f(z(kind), zstr(s)))

    def takes(self, num, value):
        return self.takes_f(z(num), z(value))

    # reading
    def current(self, i):
        """What channel i of the group reads as, at the start."""
        from pyvc.sym import SInt, SStr

        num = self.num_f(z(i))
        val = self.start_f(num)
        if self.v.branch(self.enum_f(num)):
            return SStr(self.text_f(self.kind_f(num), val))
        return SInt(val)

    # writing
    def values(self):
        from pyvc.sym import SMap

        def val(s):
            from pyvc.sym import SInt, SStr, zstr

            i = self.at_name_f(zstr(s))
            j = self.at_sel_f(i)
            if self.v.branch(self.enum_f(self.num_f(i))):
                return SStr(self.new_text_f(j))
            return SInt(self.new_f(j))

        def key(j):
            self.link_value(z(j))
            from pyvc.sym import SStr

            return SStr(self.name_f(self.sel_f(z(j))))

        return SMap(lambda s: self.given(s), val, keys=key, n=self.q.t, tag="values", name="values")

    def given(self, s):
        import z3

        from pyvc.sym import mk, zb, zstr

        i = self.at_name_f(zstr(s))
        j = self.at_sel_f(i)
        self.link_value(j)
        return mk(z3.And(zb(self.has_name(s)), j >= 0, j < self.q.t, self.sel_f(j) == i))

    def after(self, num, k):
        """The value of an identifier after k writes."""
        import z3

        num = z(num)
        i = self.at_num_f(num)
        self.link(i)
        j = self.at_sel_f(i)
        self.link_value(j)
        mine = z3.And(i >= 0, i < self.m.t, self.num_f(i) == num, j >= 0, j < k, j < self.q.t, self.sel_f(j) == i)
        new = z3.If(self.enum_f(num), self.number_f(self.kind_f(num), self.new_text_f(j)), self.new_f(j))
        return z3.If(z3.And(mine, self.takes_f(num, new)), new, self.start_f(num))

    def state_at(self, k):
        from pyvc.sym import SInt, SMap

        self.state = SMap(lambda num: True, lambda num: SInt(self.after(num, k)), name="state")


def z(x):
    from pyvc.sym import zint

    return zint(x)


class Read(LoopSpec):
    """After k channels: exactly the first k names have their current value."""

    name = "read"
    tag = "channels"

    def dicts(self, S):
        from pyvc.sym import SMap

        return [n for n, x in S.locals.items() if n in S.cut.names + S.cut_used and isinstance(x, (dict, SMap))]

    def target(self, S):
        """The local that collects the result."""
        from pyvc.core import Unsupported
        from pyvc.sym import SMap

        known = [S.g.world.group.channels]
        names = [n for n, x in S.locals.items() if not n.startswith("_vc") and (
            (isinstance(x, dict) and not x) or (isinstance(x, SMap) and x.name == "result"))]
        if len(names) != 1:
            raise Unsupported("no single result of the read loop")
        return names[0]

    def havoc(self, S, k):
        import z3

        from pyvc.sym import SMap, mk, zb, zstr

        w = S.g.world

        def has(s):
            i = w.at_name_f(zstr(s))
            return mk(z3.And(zb(w.has_name(s)), i < k))

        return {self.target(S): SMap(has, lambda s: w.current(w.at_name_f(zstr(s))), name="result")}

    def inv(self, S, k):
        import z3

        from pyvc.sym import Iff, SMap, mk, same, zb, zstr

        w = S.g.world
        res = S.locals[self.target(S)]
        s = w.pname
        i = w.at_name_f(zstr(s))
        want = z3.And(zb(w.has_name(s)), i < k)
        if not isinstance(res, SMap):
            return [("nothing read yet", Iff(False, mk(want)))]
        out = [("exactly the channels so far", Iff(res.contains_term(s), mk(want)))]
        if S.ctx.branch(want):
            out.append(("current value", same(res.get(s), w.current(i))))
        return out

    def modifies(self, S):
        return caches(S.g.world) + [x for m in self.maps(S) for x in (m, m.overlay, m.cache)]

    def maps(self, S):
        from pyvc.sym import SMap

        return [x for x in S.locals.values() if isinstance(x, SMap) and x.name == "result"]


def caches(w):
    out = [w.entries, w.cells, w.state.cache]
    for m in (w.group.channels, w.env.channel_registry.data["channels"], w.env.enum_registry.data["enums"],
              w.env.enum_channel_types):
        out.append(m.cache)
    return out


class Write(LoopSpec):
    """After k values: exactly their channels hold them."""

    name = "write"
    tag = "values"

    def havoc(self, S, k):
        S.g.world.state_at(k)
        return {}

    def inv(self, S, k):
        from pyvc.sym import SInt, same

        w = S.g.world
        return [("every channel holds its value", same(w.state.get_item(w.probe), SInt(w.after(w.probe, k))))]

    def modifies(self, S):
        w = S.g.world
        return caches(w) + [w, w.state, w.state.overlay]


@unit("C25/read", props="C25", funcs=FUNCS[:1] + ENV[:1] + ENV[3:4], loops=[Read], concrete=False)
def u_read(v):
    from pyvc.sym import mk, same

    w = v.g.world = World(v)
    out = v.outcome(w.group.read)
    v.check("reading succeeds", out[0] == "ok")
    res = out[1]
    s = v.str("name")
    w.pname = s
    has = w.has_name(s)
    if isinstance(res, dict):
        v.check("no channels, nothing read", v.And(w.m == 0, len(res) == 0))
        return
    v.check("exactly the channels of the group", v.Iff(res.contains(s), has))
    if has:
        i = w.at_name_f(s.t)
        v.check("each with its current value", same(res.get(s), w.current(i)))
    v.check("reading changes nothing", same(w.state.get_item(w.probe), mk(w.start_f(w.probe.t))))
    v.check("the lock is free", w.env.lock.lock.depth == 0)


@unit("C25/write", props="C25", funcs=FUNCS[1:2] + ENV[1:2] + ENV[4:5], loops=[Write], concrete=False)
def u_write(v):
    from pyvc.sym import SInt, same

    w = v.g.world = World(v)
    values = w.values()
    out = v.outcome(lambda: w.group.write(values))
    v.check("writing succeeds", out[0] == "ok")
    v.check("each value is in its own channel, all others are as before",
            same(w.state.get_item(w.probe), SInt(w.after(w.probe, w.q.t))))
    v.check("the lock is free", w.env.lock.lock.depth == 0)


@unit("C25/unknown", props="C25", funcs=FUNCS[1:2])
def u_unknown(v):
    """A value for a name outside the group is refused and assigned nowhere."""
    from vtelem.channel.group import ChannelGroup
    from vtelem.enums.primitive import Primitive

    env = environment(v)
    group = ChannelGroup("g", env)
    group.add_channel("a", Primitive.INT32, 1.0)
    outside = env.add_channel("b", Primitive.INT32, 1.0)
    name = v.str("name")
    v.assume(v.Not(v.same(name, "a")))
    old = env.get_value(outside)
    v.check("refused", v.fails(lambda: group.write({name: v.int("val")})))
    v.check("assigned nowhere", v.And(env.get_value(outside) == old, group.read()["a"] == 0))


@contract(G + "read", by="C25/read")
def c_read(v, self):
    v.g.reads.append(self)
    if v.g.read_fails:
        raise KeyError("read")
    return v.g.values


@contract(G + "write", by="C25/write")
def c_write(v, self, values):
    v.g.writes.append((self, values))


@unit("C25/guarded", props="C25", funcs=FUNCS[2:3], uses=[G + "read", G + "write"], concrete=False)
def u_guarded(v):
    """A guarded update is one read, the caller's changes, and one write."""
    from vtelem.channel.group import ChannelGroup

    g = v.g
    g.reads, g.writes, g.values, g.read_fails = [], [], {"a": 1, "b": 2}, v.bool("read fails")
    group = ChannelGroup("g", environment(v))
    fails = v.bool("body fails")

    def use():
        with group.data() as data:
            v.check("the caller sees the values read", data is g.values)
            v.check("nothing is written before the end", len(g.writes) == 0)
            data["a"] = 3
            if fails:
                raise KeyError("body")

    out = v.outcome(use)
    v.check("read once", len(g.reads) == 1)
    if g.read_fails:
        v.check("a failing read is reported as it is", out[0] == "raise" and out[1] is KeyError)
        v.check("and nothing is written", len(g.writes) == 0)
        return
    v.check("the outcome of the body is the outcome", (out[0] == "raise") == bool(fails))
    v.check("what the caller left is written once", len(g.writes) == 1 and g.writes[0][0] is group and g.writes[0][1] is g.values)
    v.check("with the caller's changes only", g.values["a"] == 3 and g.values["b"] == 2)


def loaded(v):
    """An environment and group with any number of other channels."""
    from vtelem.channel.group import ChannelGroup

    env = environment(v, True)
    reg = env.channel_registry
    if v.symbolic:
        base = reg.curr_id
        n = v.int("more", 0, 60000)
        metrics = dict(reg.data["channels"])
        names = dict(reg.data["mappings"])
        fill(v, reg, "reg", item=lambda i: None, n=n)
        # the metric channels of the environment keep working
        env.metrics = None
        v.assume(n >= base)
    else:
        for i in range(v.int("more", 0, 5)):
            env.add_channel("other_%d" % i, any_prim(v), 1.0)
    return env, ChannelGroup(v.str("group"), env)


@unit("C25/add", props="C25", funcs=FUNCS[3:4] + ENV[5:6])
def u_add(v):
    env, group = loaded(v)
    prim = any_prim(v)
    name, rate, track = v.str("name"), v.real("rate", 0), v.bool("track")
    reg = env.channel_registry
    n = reg.count()
    full = group.name + "." + name
    env.event_queue.consume()
    before = (reg.get_id(full), len(env.framer.channels))
    probe = v.str("probe")
    pid = reg.get_id(probe)
    ok = group.add_channel(name, prim, rate, track)
    v.check("accepted exactly when the name is new", v.Iff(ok, before[0] is None))
    events = env.event_queue.consume()
    v.check("no event is queued for it", v.And(*[v.Not(v.same(e[0], full)) for e in events]))
    if ok:
        at = reg.get_id(full)
        v.check("registered under the group's name", v.same(at, n))
        chan = reg.get_item(at)
        v.check("of the given type and rate", v.And(chan.type is prim, v.same(chan.rate, rate)))
        v.check("changes tracked as asked", v.Iff(chan.changed_cb is not None, track))
        v.check("emitted with the others", len(env.framer.channels) == before[1] + 1 and env.framer.channels[-1] is chan)
        v.check("the group reads its value", v.same(group.read()[name], chan.get()))
        v.check("which fits the type", fits(v, prim, chan.get()))
        val = value_of(v, prim)
        group.write({name: val})
        v.check("the group writes its value", v.same(chan.get(), val))
    else:
        v.check("refused: no channel more", reg.count() == n)
        v.check("refused: nothing emitted more", len(env.framer.channels) == before[1])
        v.check("refused: the group has no such channel", len(group.channels) == 0)
    if v.Not(v.same(probe, full)):
        v.check("other names unaffected", v.same(reg.get_id(probe), pid))


@unit("C25/add_enum", props="C25", funcs=FUNCS[4:5] + ENV[2:3])
def u_add_enum(v):
    env, group = loaded(v)
    content = Content(v)
    enum = content.enum("colour")
    kind = env.enum_registry.add_enum(enum)[1]
    name, ename = v.str("name"), v.choose("enum", ["colour", "any"])
    if ename == "any":
        ename = v.str("enum name")
    reg = env.channel_registry
    n = reg.count()
    full = group.name + "." + name
    had = reg.get_id(full)
    known = env.enum_registry.get_id(ename)
    emitted = len(env.framer.channels)
    direct = v.bool("direct")
    first = v.str("first") if direct else enum.default
    track = v.bool("track")
    if direct:
        out = v.outcome(lambda: env.add_enum_channel(full, ename, 1.0, track, (first, None)))
        ok = out[0] == "ok"
    else:
        if ename != "colour":
            v.assume(known is None)
        ok = group.add_enum_channel(name, ename, 1.0, track)
    if known is None:
        v.check("an unknown enumeration is refused", v.Not(ok))
    if had is not None:
        v.check("a duplicate is refused", v.Not(ok))
    if not ok:
        v.check("refused: no channel is left behind", v.And(reg.count() == n, v.same(reg.get_id(full), had)))
        v.check("refused: nothing is emitted", len(env.framer.channels) == emitted)
        v.check("refused: the group has no such channel", len(group.channels) == 0)
        v.check("refused: not an enumeration channel", v.Not(env.is_enum_channel(n)))
        return
    chan = reg.get_item(n)
    if ename != "colour":
        v.assume(v.same(known, kind))
    v.check("it holds the integer of its first value", v.same(chan.get(), content.value(first.lower())))
    v.check("it is an enumeration channel", env.is_enum_channel(n))
    v.check("it reads as the string", v.same(env.get_enum_value(n), first.lower()))
    if not direct:
        v.check("also through the group", v.same(group.read()[name], first.lower()))
    key = content.key("new")
    v.assume(v.And(key >= 0, key <= 255))
    if direct:
        env.set_enum_now(n, content.string(key))
    else:
        group.write({name: content.string(key)})
    v.check("writing a string stores its integer", v.same(chan.get(), key))


@unit("C25/registry", props="C25", funcs=[GR + n for n in ("create_group", "add_channel", "add_enum_channel", "group")])
def u_registry(v):
    from vtelem.channel.group import ChannelGroup
    from vtelem.channel.group_registry import ChannelGroupRegistry
    from vtelem.enums.primitive import Primitive

    env = environment(v)
    reg = ChannelGroupRegistry(env)
    a, b = v.str("a"), v.str("b")
    one = reg.create_group(a)
    again = v.same(a, b)
    out = v.outcome(lambda: reg.create_group(b))
    v.check("a known group name is refused", v.Iff(out[0] == "raise", again))
    if out[0] == "raise":
        v.check("and leaves nothing", reg.count() == 1)
        return
    two = out[1]
    v.assume(v.Not(v.Or(v.same(a + ".x", b + ".x"), v.same(a + ".y", b + ".x"))))
    reg.add_channel(one, "x", Primitive.INT32, 1.0)
    reg.add_channel(two, "x", Primitive.INT32, 1.0)
    val, other = v.int("val", -2 ** 31, 2 ** 31 - 1), v.int("other", -2 ** 31, 2 ** 31 - 1)
    with reg.group(one) as data:
        data["x"] = val
    with reg.group(two) as data:
        v.check("groups do not share values", data["x"] == 0)
        data["x"] = other
    with reg.group(one) as data:
        v.check("each keeps its own", v.same(data["x"], val))
    v.check("an unknown group is refused", v.fails(lambda: reg.add_channel(2, "z", Primitive.INT32, 1.0), AssertionError))


@search("C25")
def search_groups(v):
    """Random groups, updates and refusals against a plain model."""
    from vtelem.channel.group import ChannelGroup
    from vtelem.classes.user_enum import user_enum

    env = environment(v, v.bool("metered"))
    enums = {}
    for i in range(v.int("enums", 1, 3)):
        content = {k % 256: s for k, s in draw_content(v).items()}
        name = "enum_%d" % i
        default = v.choose("default", [None, v.choose("d", sorted(content.values())), "missing"])
        enums[name] = (content, default)
        env.add_enum(user_enum(name, content, default))
    groups = [ChannelGroup("g%d" % i, env) for i in range(v.int("groups", 1, 3))]
    model, kinds = {}, {}
    for i in range(v.int("chans", 0, 12, cmax=12)):
        group = v.choose("group", groups)
        name = "c%d" % v.int("which", 0, 6)
        known = (group.name, name) in model
        count = env.channel_registry.count()
        events = env.event_queue.queue.qsize()
        track = v.bool("track")
        if v.bool("is enum"):
            en = v.choose("enum", list(enums) + ["nope"])
            ok = group.add_enum_channel(name, en, 1.0, track)
            good = not known and en in enums and enums[en][1] != "missing"
            v.check("accepted exactly when new and known", ok == good)
            if ok:
                content, default = enums[en]
                first = default if default is not None else list(content.values())[0]
                model[group.name, name], kinds[group.name, name] = first, en
        else:
            prim = any_prim(v)
            ok = group.add_channel(name, prim, 1.0, track)
            v.check("accepted exactly when new", ok == (not known))
            if ok:
                model[group.name, name], kinds[group.name, name] = prim.value.type(), prim
        if not ok:
            v.check("refused: nothing left behind", env.channel_registry.count() == count
                    and len(env.framer.channels) == count and env.event_queue.queue.qsize() == events)
    for i in range(v.int("updates", 1, 10, cmax=10)):
        group = v.choose("upd", groups)
        mine = [nm for g, nm in model if g == group.name]
        env.set_time(float(i))
        out = None
        new = {}
        for nm in mine:
            if v.bool("touch"):
                kind = kinds[group.name, nm]
                new[nm] = v.choose("val", sorted(enums[kind][0].values())) if isinstance(kind, str) else draw_value(v, kind)
        fail = v.rng.random() < 0.3
        how = v.choose("how", ["data", "write"])

        def use():
            if how == "write":
                group.write(dict(new))
                return
            with group.data() as data:
                v.check("a group reads its channels", data == {nm: model[group.name, nm] for nm in mine})
                data.update(new)
                if fail:
                    raise KeyError("body")

        out = v.outcome(use)
        v.check("outcome", (out[0] == "raise") == (fail and how == "data"))
        for nm, val in new.items():
            model[group.name, nm] = val
        for g in groups:
            want = {nm: model[gn, nm] for gn, nm in model if gn == g.name}
            v.check("every channel holds exactly its value", g.read() == want)
