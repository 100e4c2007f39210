"""C13: registries are a bijection; lookups are pure."""
from pyvc.api import unit

from ._common import any_prim

FUNCS = ["vtelem.registry:Registry." + n for n in ("__init__", "get_item", "get_id", "add", "count")]


def maps(reg):
    return reg.data[reg.type_name], reg.data["mappings"]


def fill(v, reg, name="reg", item=None, n=None):
    """Put a registry into an arbitrary reachable state.

    Class invariant: ids 0..n-1 are taken, each by its own name, and the two
    maps are inverse to each other. Returns (n, name_at).
    """
    if n is None:
        n = v.int(name + ".n", 0, 60000, cmax=8)
    if not v.symbolic:
        base = reg.curr_id
        names = []
        while len(names) < n:
            nm = v.str(name + ".name")
            if reg.add(nm, item(len(names)) if item else len(names) + 1000)[0]:
                names.append(nm)
            else:
                nm = nm + "_%d" % len(names)
                if reg.add(nm, item(len(names)) if item else len(names) + 1000)[0]:
                    names.append(nm)
        assert base == 0
        return n, lambda i: names[i]
    import z3

    from pyvc import core
    from pyvc.sym import SInt, SMap, SStr, mk, zint, zstr

    tag = v.fresh_name(name)
    name_of = z3.Function(tag + ".name_of", z3.IntSort(), z3.StringSort())
    id_of = z3.Function(tag + ".id_of", z3.StringSort(), z3.IntSort())
    nn = zint(n)

    def link(t):
        # instance of the invariant: ids in range resolve back
        core.CUR.add(z3.Implies(z3.And(t >= 0, t < nn), id_of(name_of(t)) == t))

    def has_id(k):
        t = zint(k)
        link(t)
        return mk(z3.And(t >= 0, t < nn))

    def has_name(k):
        t = id_of(zstr(k))
        link(t)
        return mk(z3.And(t >= 0, t < nn, name_of(t) == zstr(k)))

    items = item or (lambda i: SInt(z3.Function(tag + ".item", z3.IntSort(), z3.IntSort())(zint(i))))
    reg.data[reg.type_name] = SMap(has_id, items, default=lambda: None, name="items")
    reg.data["mappings"] = SMap(has_name, lambda k: SInt(id_of(zstr(k))), default=lambda: None, name="mappings")
    reg.curr_id = n

    def name_at(i):
        link(zint(i))
        return SStr(name_of(zint(i)))

    return n, name_at


def known(v, reg, which, key):
    """Is the key present in the map that describes the registry?"""
    d = maps(reg)[which]
    if v.symbolic:
        from pyvc import runtime

        return runtime.contains(key, d)
    return key in d


def observe(v, reg, key_id, key_name):
    """Everything a user can see of one identifier and one name."""
    return (reg.count(), reg.get_item(key_id), reg.get_id(key_name), known(v, reg, 0, key_id), known(v, reg, 1, key_name))


def check_same_view(v, what, a, b):
    for label, x, y in zip(("count", "item", "id", "id listed", "name listed"), a, b):
        v.check("%s: %s unchanged" % (what, label), v.same(x, y))


def new_registry(v):
    from vtelem.registry import Registry

    reg = Registry("things")
    n, name_at = fill(v, reg)
    return reg, n, name_at


@unit("C13/add", props="C13", funcs=FUNCS)
def u_add(v):
    reg, n, name_at = new_registry(v)
    new = v.choose("which", ["any", "old"])
    if new == "old":
        i = v.index("old", n)
        name = name_at(i)
    else:
        name = v.str("name")
    item = v.int("item")
    pid, pname = v.int("probe_id", -1, 70000, cmax=10), v.str("probe_name")
    before = observe(v, reg, pid, pname)
    had = reg.get_id(name)
    ok, got = reg.add(name, item)
    v.check("a new name is accepted, a known one refused", v.Iff(ok, had is None))
    if new == "old":
        v.check("known names are refused", v.Not(ok))
    after = observe(v, reg, pid, pname)
    if not ok:
        v.check("refusal is reported as such", got == -1)
        check_same_view(v, "refused", before, after)
        return
    v.check("identifiers are consecutive", got == n)
    v.check("one more item", reg.count() == n + 1)
    v.check("name resolves to the identifier", v.same(reg.get_id(name), got))
    v.check("identifier resolves to the item", v.same(reg.get_item(got), item))
    if v.Not(v.same(pid, got)):
        v.check("other identifiers unaffected", v.And(v.same(before[1], after[1]), v.same(before[3], after[3])))
    if v.Not(v.same(pname, name)):
        v.check("other names unaffected", v.And(v.same(before[2], after[2]), v.same(before[4], after[4])))
    v.check("adding again is refused", v.Not(reg.add(name, item)[0]))


@unit("C13/bijection", props="C13", funcs=FUNCS)
def u_bijection(v):
    reg, n, name_at = new_registry(v)
    i = v.index("i", n)
    v.check("every identifier in use has an item", reg.get_item(i) is not None)
    v.check("its name resolves to it", v.same(reg.get_id(name_at(i)), i))
    j = v.int("j", -5, 70000, cmax=12)
    v.check("identifiers in use are exactly 0..count-1",
            v.Iff(reg.get_item(j) is not None, v.And(j >= 0, j < reg.count())))
    name = v.str("name")
    at = reg.get_id(name)
    if at is not None:
        v.check("a resolved identifier is in use", v.And(at >= 0, at < reg.count()))


@unit("C13/lookup", props="C13", funcs=FUNCS)
def u_lookup(v):
    reg, n, _ = new_registry(v)
    pid, pname = v.int("probe_id", -1, 70000, cmax=10), v.str("probe_name")
    before = observe(v, reg, pid, pname)
    key = v.int("key", -1, 70000, cmax=10)
    name = v.str("key_name")
    found = reg.get_item(key)
    v.check("an unknown identifier finds nothing", v.Implies(v.Or(key < 0, key >= n), found is None))
    reg.get_id(name)
    after = observe(v, reg, pid, pname)
    check_same_view(v, "lookup", before, after)
    v.check("looking up again gives the same", v.same(reg.get_item(key), found))


@unit("C13/fresh", props="C13", funcs=FUNCS)
def u_fresh(v):
    """The invariant holds initially: initial data is registered in order."""
    from vtelem.registry import Registry

    a, b = v.str("a"), v.str("b")
    x, y = v.int("x"), v.int("y")
    pairs = v.choose("initial", [None, [], [(a, x)], [(a, x), (b, y)]])
    reg = Registry("things", pairs)
    names = [p[0] for p in pairs or []]
    if len(names) == 2 and v.same(a, b):
        names = names[:1]
    v.check("count of distinct names", reg.count() == len(names))
    for i, nm in enumerate(names):
        v.check("initial names resolve in order", v.same(reg.get_id(nm), i))
        v.check("initial items resolve", v.same(reg.get_item(i), (x, y)[i]))
    v.check("nothing else is registered", reg.get_item(len(names)) is None)
    z = v.str("z")
    if v.And(*[v.Not(v.same(z, nm)) for nm in names]):
        v.check("no other name", reg.get_id(z) is None)


@unit("C13/kinds", props="C13", funcs=FUNCS + [
    "vtelem.channel.registry:ChannelRegistry.add_channel", "vtelem.channel.registry:ChannelRegistry.get_channel_type",
    "vtelem.registry.type:TypeRegistry.get_type", "vtelem.registry.type:get_default"])
def u_kinds(v):
    from vtelem.channel import Channel
    from vtelem.channel.registry import ChannelRegistry
    from vtelem.registry.service import ServiceRegistry
    from vtelem.registry.type import get_default

    kind = v.choose("kind", ["channel", "type", "service"])
    if kind == "channel":
        reg = ChannelRegistry()
        fill(v, reg)
        chan = Channel(v.str("chan"), any_prim(v), v.real("rate", 0))
        had = reg.get_id(chan.name)
        ok, at = reg.add_channel(chan)
        v.check("channels register under their name", v.Iff(ok, had is None))
        if ok:
            v.check("channel is found", reg.get_item(at) is chan)
            v.check("channel type is its own", reg.get_channel_type(at) == chan.type)
            v.check("channel name resolves", v.same(reg.get_id(chan.name), at))
        n = reg.count()
        v.check("the type of an unknown channel is refused", v.fails(lambda: reg.get_channel_type(n), AssertionError))
    elif kind == "type":
        from ._common import WIRE

        reg = get_default()
        v.check("every primitive type is registered", reg.count() == len(WIRE))
        prim = any_prim(v)
        at = reg.get_id(prim.name.lower())
        v.check("types resolve by name", at is not None)
        v.check("and back by identifier", at is not None and reg.get_type(at) is prim)
    else:
        one = [("h", v.int("port"))]
        reg = ServiceRegistry([(v.str("svc"), one)])
        v.check("initial service registered", reg.get_item(0) is one)


@unit("C13/initial_channels", props="C13", funcs=["vtelem.channel.registry:ChannelRegistry.__init__"])
def u_initial(v):
    from vtelem.channel import Channel
    from vtelem.channel.registry import ChannelRegistry

    a, b = v.str("a"), v.str("b")
    ca, cb = Channel(a, any_prim(v), 1.0), Channel(b, any_prim(v, "type2"), 1.0)
    reg = ChannelRegistry([ca, cb])
    v.check("first channel", v.And(reg.get_item(0) is ca, v.same(reg.get_id(a), 0)))
    if v.Not(v.same(a, b)):
        v.check("second channel", v.And(reg.get_item(1) is cb, v.same(reg.get_id(b), 1)))
    else:
        v.check("duplicate refused", reg.count() == 1)
