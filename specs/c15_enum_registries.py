"""C15: enumeration registries hand out unique ids and refuse conflicts."""
from pyvc.api import contract, search, unit
from pyvc.loops import LoopSpec

from .c13_registry import fill
from .c19_writer import T, zi

R = "vtelem.registry.enum_retry:"
E = "vtelem.registry.enum:EnumRegistry."
RETRY = [R + "EnumRegistry." + n for n in ("init", "add", "get_enum", "enum_data")]
FUNCS = [E + n for n in ("__init__", "get_enum", "add_enum", "export")]


class Item:
    """A registered enumeration, as far as a registry looks at it."""

    def __init__(self, name, data=None):
        self.name = name
        self.data = data


def user_enum(v, name):
    if v.symbolic:
        return Item(name, {"name": name})
    from vtelem.classes.user_enum import UserEnum, coerce_enum

    return UserEnum({"name": name, "mappings": dict(coerce_enum({0: "a", 1: "b"})), "default": None})


# -- the serializable registry ------------------------------------------------
def retry_registry(v, name="reg"):
    """A registry with any number of enumerations; (registry, n, name_at, item_at)."""
    from vtelem.registry.enum_retry import EnumRegistry

    reg = EnumRegistry()
    n = v.int(name + ".n", 0, 60000, cmax=6)
    if not v.symbolic:
        items = []
        while len(items) < n:
            item = user_enum(v, "%s_%d" % (v.str("name"), len(items)))
            reg.add(item)
            items.append(item)
        return reg, n, lambda i: items[i].name, lambda i: items[i]
    import z3

    from pyvc import core
    from pyvc.sym import SInt, SMap, SStr, mk, zint, zstr

    tag = v.fresh_name(name)
    name_of = z3.Function(tag + ".name_of", z3.IntSort(), z3.StringSort())
    id_of = z3.Function(tag + ".id_of", z3.StringSort(), z3.IntSort())
    made = []

    def link(t):
        core.CUR.add(z3.Implies(z3.And(t >= 0, t < zint(n)), id_of(name_of(t)) == t))

    def has_id(k):
        link(zint(k))
        return mk(z3.And(zint(k) >= 0, zint(k) < zint(n)))

    def has_name(s):
        t = id_of(zstr(s))
        link(t)
        return mk(z3.And(t >= 0, t < zint(n), name_of(t) == zstr(s)))

    def item_at(i):
        t = z3.simplify(zint(i))
        for key, item in made:
            if z3.eq(key, t):
                return item
        item = Item(SStr(name_of(t)), {"name": SStr(name_of(t))})
        made.append((t, item))
        return item

    def at(s):
        return item_at(SInt(id_of(zstr(s))))

    reg.data["mappings"] = SMap(has_id, lambda k: SStr(name_of(zint(k))), name="mappings")
    reg.data["enums"] = SMap(has_name, lambda s: at(s).data, name="enum_data")
    reg.enums = SMap(has_name, at, name="enums")
    reg.curr_id = n

    def name_at(i):
        link(zint(i))
        return SStr(name_of(zint(i)))

    return reg, n, name_at, item_at


def seen(v, reg, num):
    out = v.outcome(lambda: reg.get_enum(num))
    return out[1].name if out[0] == "ok" else None


def serial(v, reg, name):
    """Is this name part of the serialized data?"""
    if v.symbolic:
        from pyvc.runtime import contains

        return contains(name, reg.enum_data)
    return name in reg.enum_data


@unit("C15/retry_add", props="C15", funcs=RETRY)
def u_retry_add(v):
    reg, n, name_at, _ = retry_registry(v)
    if v.bool("known"):
        new = name_at(v.index("i", n))
    else:
        new = v.str("new")
    item = user_enum(v, new)
    had = serial(v, reg, new)
    num, probe = v.int("num", -2, 70000, cmax=9), v.str("probe")
    before = (seen(v, reg, num), serial(v, reg, probe))
    out = v.outcome(lambda: reg.add(item))
    v.check("a name is accepted exactly once", v.Iff(out[0] == "ok", v.Not(had)))
    after = (seen(v, reg, num), serial(v, reg, probe))
    if out[0] == "raise":
        v.check("refused: identifiers unchanged", v.same(before[0], after[0]))
        v.check("refused: names unchanged", v.Iff(before[1], after[1]))
        v.check("refused: nothing registered", v.same(reg.curr_id, n))
        return
    v.check("identifiers are consecutive", v.same(out[1], n))
    v.check("the identifier resolves to what was added", v.outcome(lambda: reg.get_enum(out[1]))[1] is item)
    v.check("its data is serialized under its name", v.And(serial(v, reg, new), reg.enum_data[new] is item.data))
    if v.Not(v.same(num, out[1])):
        v.check("other identifiers unaffected", v.same(before[0], after[0]))
    if v.Not(v.same(probe, new)):
        v.check("other names unaffected", v.Iff(before[1], after[1]))


@unit("C15/retry_lookup", props="C15", funcs=RETRY)
def u_retry_lookup(v):
    reg, n, name_at, item_at = retry_registry(v)
    i = v.index("i", n)
    out = v.outcome(lambda: reg.get_enum(i))
    v.check("identifiers in use resolve to what was added", out[0] == "ok" and v.same(out[1].name, name_at(i)))
    num = v.int("num", -3, 70000, cmax=9)
    out = v.outcome(lambda: reg.get_enum(num))
    v.check("other identifiers resolve to nothing", v.Iff(out[0] == "ok", v.And(num >= 0, num < n)))


# -- rebuilding from serialized data -------------------------------------------
class Saved:
    """The data of a registry with any number of enumerations, listed in any order.

    number(j) is the identifier in position j (pos inverts it); names as in
    retry_registry. As text (json) the identifiers are strings.
    """

    def __init__(self, v, text, with_enums):
        import z3

        from pyvc.sym import SInt, SMap, SStr, mk

        self.v, self.text = v, text
        self.n = v.int("saved", 0)
        I, S = z3.IntSort(), z3.StringSort()
        F = lambda nm, *s: z3.Function(v.fresh_name(nm), *s)
        self.num_f, self.pos_f = F("number", I, I), F("pos", I, I)
        self.name_f, self.id_f = F("name", I, S), F("id", S, I)
        self.items, self.done = [], []
        self.probe, self.num = v.str("probe"), v.int("num")
        self.data = {"type": "enum_registry"}
        if text:
            self.data["mappings"] = SMap(lambda s: mk(self.has_text(s)), lambda s: SStr(self.name_f(self.of_text(s))),
                                         None, lambda j: self.as_text(j), self.n.t, "mappings", "mappings")
        else:
            self.data["mappings"] = SMap(lambda k: mk(self.has(k)), lambda k: SStr(self.name_f(zi(k))),
                                         None, lambda j: SInt(self.number(j)), self.n.t, "mappings", "mappings")
        if with_enums:
            self.data["enums"] = SMap(lambda s: mk(self.knows(s)), lambda s: self.item(self.id_f(zs(s))), None,
                                      lambda j: SStr(self.name_f(self.number(j))), self.n.t, "saved enums", "saved enums")

    def link(self, k):
        """Identifier k."""
        import z3

        from pyvc import core

        n = self.n.t
        j = self.pos_f(k)
        core.CUR.add(z3.Implies(z3.And(k >= 0, k < n), z3.And(
            self.id_f(self.name_f(k)) == k, j >= 0, j < n, self.num_f(j) == k)))

    def number(self, j):
        import z3

        from pyvc import core

        j = zi(j)
        k = self.num_f(j)
        core.CUR.add(z3.Implies(z3.And(j >= 0, j < self.n.t), z3.And(k >= 0, k < self.n.t, self.pos_f(k) == j)))
        self.link(k)
        return k

    def as_text(self, j):
        from pyvc import core
        from pyvc.sym import INTOF, SStr, TOSTR_I

        k = self.number(j)
        core.CUR.add(INTOF(TOSTR_I(k)) == k)
        return SStr(TOSTR_I(k))

    def of_text(self, s):
        from pyvc.sym import INTOF

        self.link(INTOF(zs(s)))
        return INTOF(zs(s))

    def has_text(self, s):
        import z3

        from pyvc.sym import TOSTR_I

        k = self.of_text(s)
        return z3.And(k >= 0, k < self.n.t, TOSTR_I(k) == zs(s))

    def has(self, k, upto=None):
        """Is k an identifier, among the first upto listed?"""
        import z3

        k = zi(k)
        self.link(k)
        res = z3.And(k >= 0, k < self.n.t)
        return res if upto is None else z3.And(res, self.pos_f(k) < upto)

    def knows(self, s, upto=None):
        import z3

        k = self.id_f(zs(s))
        self.link(k)
        res = z3.And(k >= 0, k < self.n.t, self.name_f(k) == zs(s))
        return res if upto is None else z3.And(res, self.pos_f(k) < upto)

    def find(self, k, made, make):
        import z3

        t = z3.simplify(k)
        for key, item in made:
            if z3.eq(key, t):
                return item
        item = make(t)
        made.append((t, item))
        return item

    def item(self, k):
        """The saved data of enumeration k."""
        from pyvc.sym import SStr

        return self.find(k, self.items, lambda t: {"name": SStr(self.name_f(t)), "id": T(t)})

    def enum(self, k):
        """The enumeration made from it, as the contract of UserEnum says."""
        from vtelem.classes.user_enum import UserEnum

        def make(t):
            res = object.__new__(UserEnum)
            res.data = self.item(t)
            res.strings = ("reverse of", id(res.data))
            return res

        return self.find(k, self.done, make)


def zs(s):
    from pyvc.sym import zstr

    return zstr(s)


@contract("vtelem.classes.user_enum:UserEnum.init", by="C14/build")
def c_enum_init(v, self, data):
    """The strings become the reverse of the mappings; name and entries stay."""
    self.strings = ("reverse of", id(data))


class Numbers(LoopSpec):
    """int_keys: after k entries the result has those, under integers."""

    name = "numbers"
    tag = "mappings"

    def match_comp(self, fn, seq):
        from pyvc import core

        w = getattr(core.CUR.g, "w", None)
        return w is not None and w.text and getattr(seq, "tag", None) == self.tag

    def match_for(self, seq, key, n):
        return False

    def comp_item(self, S, k, item):
        from pyvc.sym import SStr

        w, c = S.g.w, S.ctx
        c.check("the identifier as integer", c.same(item[0], T(w.number(k))))
        c.check("with its name", c.same(item[1], SStr(w.name_f(w.number(k)))))

    def comp_result(self, S, k):
        return S.g.w.as_numbers()


def as_numbers(self):
    from pyvc.sym import SInt, SMap, SStr, VDict, mk

    res = VDict()
    res.vc = SMap(lambda x: mk(self.has(x)), lambda x: SStr(self.name_f(zi(x))), None,
                  lambda j: SInt(self.number(j)), self.n.t, "mappings", "mappings")
    return res


Saved.as_numbers = as_numbers


class Highest(LoopSpec):
    """max_key: the highest of the first k identifiers, -1 for none."""

    name = "highest"
    tag = "mappings"

    def match_for(self, seq, key, n):
        return getattr(seq, "tag", None) == self.tag and "max_key" in key

    def result(self, S):
        from pyvc.core import Unsupported
        from pyvc.sym import SInt

        if not hasattr(S, "result"):
            names = [n for n, x in S.locals.items() if not n.startswith("_vc") and isinstance(x, (int, SInt))
                     and not isinstance(x, bool) and n in S.cut.names]
            if len(names) != 1:
                raise Unsupported("no single result")
            S.result = names[0]
        return S.locals[S.result]

    def inv(self, S, k):
        import z3

        w = S.g.w
        res, top, k = zi(self.result(S)), w.n.t - 1, zi(k)
        w.link(top)
        return [("an identifier or -1", T(z3.And(res >= -1, res <= top))),
                ("at least the last one, once seen", T(z3.Implies(z3.And(top >= 0, w.pos_f(top) < k), res >= top)))]


class Loading(LoopSpec):
    """The first k enumerations were made from their data."""

    name = "loading"
    tag = "mappings"

    def match_for(self, seq, key, n):
        return getattr(seq, "tag", None) == self.tag and "max_key" not in key

    def made(self, S):
        from pyvc.core import Unsupported
        from pyvc.sym import VDict

        got = [x for x in vars(S.locals["self"]).values() if type(x) is VDict] if "self" in S.locals else []
        got += [x for nm, x in S.locals.items() if type(x) is VDict and not nm.startswith("_vc")]
        got = [x for x in got if (x.vc is None and not dict.__len__(x)) or (x.vc is not None and x.vc.tag == "made")]
        if len({id(x) for x in got}) != 1:
            raise Unsupported("no single mapping of enumerations")
        return got[0]

    def havoc(self, S, k):
        from pyvc.sym import SMap

        w = S.g.w
        self.made(S).vc = SMap(lambda s: T(w.knows(s, k)), lambda s: w.enum(w.id_f(zs(s))), None, None, k, "made", "made")
        return {}

    def inv(self, S, k):
        from pyvc.sym import Iff, zb

        d, w, c, k = self.made(S), S.g.w, S.ctx, zi(k)
        if d.vc is None:
            return [("nothing yet", T(k == 0))]
        want = T(w.knows(w.probe, k))
        out = [("those listed so far", Iff(d.vc.contains_term(w.probe), want))]
        if c.branch(zb(want)):
            got = d.vc.get(w.probe)
            data = getattr(got, "data", None) or {"name": None, "id": None}
            out.append(("each from its own data", c.And(c.same(data["name"], w.probe), c.same(data["id"], T(w.id_f(zs(w.probe)))))))
            out.append(("made as enumeration", getattr(got, "strings", None) == ("reverse of", id(data))))
        return out

    def step_begin(self, S, k, item):
        S.g.w.number(k)

    def modifies(self, S):
        w, d = S.g.w, self.made(S)
        return [d, d.vc, d.vc.overlay, d.vc.cache, w.items, w.done] + [x for _, x in w.items]


@unit("C15/rebuild", props="C15", funcs=RETRY + ["vtelem.classes.serdes:max_key", "vtelem.classes.serdes:Serializable.int_keys",
                                                 "vtelem.classes.serdes:Serializable.coerce_int_keys"],
      loops=[Numbers, Highest, Loading], uses=["vtelem.classes.user_enum:UserEnum.init"], concrete=False)
def u_rebuild(v):
    """Rebuilding from the registry's own data: as it is, or from json text."""
    from vtelem.registry.enum_retry import EnumRegistry

    with_enums = v.bool("with enumerations")
    w = v.g.w = Saved(v, v.bool("text"), with_enums)
    if not with_enums:
        v.assume(w.n == 0)
    again = EnumRegistry(w.data)
    i = w.num
    out = v.outcome(lambda: again.get_enum(i))
    v.check("exactly the identifiers of before resolve", v.Iff(out[0] == "ok", T(w.has(i))))
    if out[0] == "ok":
        v.check("to the enumeration of before", v.And(v.same(out[1].data["name"], T(w.name_f(zi(i)))), v.same(out[1].data["id"], i)))
    new = Item(w.probe, {"name": w.probe})
    known = w.knows(w.probe)
    more = v.outcome(lambda: again.add(new))
    v.check("names stay taken, others are free", v.Iff(more[0] == "ok", T(z_not(known))))
    if more[0] == "ok":
        v.check("the next identifier follows", v.same(more[1], w.n))
        v.check("and resolves to what was added", v.outcome(lambda: again.get_enum(more[1]))[1] is new)


def z_not(x):
    import z3

    return z3.Not(x)


# -- export to the type registry ----------------------------------------------
class Export(LoopSpec):
    """After k enumerations: each of them is mapped, foreign names are untouched."""

    name = "export"
    tag = "enums"

    def havoc(self, S, k):
        S.g.world.at(k)
        return {}

    def inv(self, S, k):
        return S.g.world.describes(k)

    def modifies(self, S):
        w = S.g.world
        return [w.made, w.types, w.types.data, w.types.data["mappings"], w.types.data[w.types.type_name], w.reg.data["global_mappings"], w.reg.data] + \
            [x.overlay for x in w.maps()] + [x.cache for x in w.maps()]


class World:
    """Enumerations 0..n-1 and a type registry with any content.

    Enumeration i is 'foreign' when its name is taken in the type registry by
    something else, 'done' when it was exported before, else 'new'. new ones
    get the type identifiers base, base+1, ... in order; cnt(i) counts them
    and nth inverts it.
    """

    def __init__(self, v):
        import z3

        from vtelem.registry.enum import EnumRegistry
        from vtelem.registry.type import TypeRegistry

        self.v = v
        self.reg, self.types = EnumRegistry(), TypeRegistry()
        self.n, self.name_at = fill(v, self.reg, "enums")
        self.base, self.type_name_at = fill(v, self.types, "types")
        tag = v.fresh_name("world")
        ints, bools = z3.IntSort(), z3.BoolSort()
        self.cnt_f = z3.Function(tag + ".cnt", ints, ints)
        self.nth_f = z3.Function(tag + ".nth", ints, ints)
        self.map_f = z3.Function(tag + ".global", ints, ints)
        self.alike_f = z3.Function(tag + ".alike", ints, bools)
        self.mapped_f = z3.Function(tag + ".mapped", ints, bools)
        self.items = {}
        self.made = []
        enums = self.reg.data["enums"]
        self.names0 = self.types.data["mappings"]
        self.items0 = self.types.data[self.types.type_name]
        from pyvc.sym import SInt

        enums.val_base = self.item
        enums.keys_seq, enums.n, enums.tag = (lambda i: SInt(i)), self.n.t, "enums"
        self.probe, self.num = v.str("probe"), v.int("num")
        self.i = v.index("i", self.n)
        self.link(self.i.t)
        self.at(z3.IntVal(0))

    def item(self, k):
        import z3

        from pyvc.sym import zint

        t = z3.simplify(zint(k))
        for key, item in self.made:
            if z3.eq(key, t):
                return item
        item = Item(self.name_at(k))
        self.made.append((t, item))
        return item

    def taken(self, i):
        """(is the name of enumeration i in the type registry, under which id)"""
        from pyvc.sym import SMap

        name = self.name_at(i)
        base = self.names0
        return base.has_base(name), base.val_base(name)

    def new(self, i):
        from pyvc.sym import Not, zb

        return zb(Not(self.taken(i)[0]))

    def done(self, i):
        """Was enumeration i exported before (mapped under the id of its name)?"""
        from pyvc.sym import And, mk, zint

        has, tid = self.taken(i)
        return And(has, mk(self.mapped_f(zint(tid))), mk(self.map_f(zint(tid)) == zint(i)))

    def link(self, i):
        import z3

        from pyvc import core

        new = self.new_raw(i)
        core.CUR.add(z3.And(
            self.cnt_f(i + 1) == self.cnt_f(i) + z3.If(new, 1, 0), self.cnt_f(0) == 0,
            z3.Implies(i >= 0, self.cnt_f(i) >= 0), z3.Implies(new, self.nth_f(self.cnt_f(i)) == i)))

    def new_raw(self, i):
        from pyvc.sym import SInt

        return self.new(SInt(i))

    def maps(self):
        d = self.types.data
        return [d["mappings"], d[self.types.type_name], self.reg.data["global_mappings"]]

    def index_of(self, s):
        """Enumeration index of a name (any value when it has none)."""
        return self.reg.data["mappings"].val_base(s).t

    def exported(self, i, k):
        """Did the first k rounds export enumeration i as new?"""
        import z3

        self.link(i)
        return z3.And(i >= 0, i < k, self.new_raw(i))

    # the state after k rounds, as functions
    def name_has(self, s, k):
        import z3

        from pyvc.sym import SStr, mk, zb, zstr

        i = self.index_of(s)
        known = zb(self.reg.data["mappings"].has_base(s))
        return mk(z3.Or(zb(self.names0.has_base(s)), z3.And(known, self.exported(i, k))))

    def name_val(self, s, k):
        from pyvc.sym import Ite, SInt

        i = self.index_of(s)
        self.link(i)
        return Ite(self.names0.has_base(s), self.names0.val_base(s), SInt(self.base.t + self.cnt_f(i)))

    def global_has(self, t, k):
        import z3

        from pyvc.sym import mk, zint

        j = zint(t) - self.base.t
        i = self.nth_f(j)
        mine = z3.And(self.exported(i, k), self.cnt_f(i) == j)
        return mk(z3.Or(z3.And(zint(t) < self.base.t, self.mapped_f(zint(t))), mine))

    def global_val(self, t, k):
        import z3

        from pyvc.sym import SInt, zint

        z = zint(t)
        return SInt(z3.If(z < self.base.t, self.map_f(z), self.nth_f(z - self.base.t)))

    def at(self, k):
        """Put the registries into the state after k rounds."""
        from pyvc.sym import SInt, SMap

        self.link(k)
        self.types.curr_id = SInt(self.base.t + self.cnt_f(k))
        self.types.data["mappings"] = SMap(lambda s: self.name_has(s, k), lambda s: self.name_val(s, k),
                                           default=lambda: None, name="type names")
        from pyvc.sym import And, Or, mk, zint

        self.types.data[self.types.type_name] = SMap(
            lambda t: And(mk(zint(t) >= 0), mk(zint(t) < self.base.t + self.cnt_f(k))),
            lambda t: self.type_item(t), default=lambda: None, name="types")
        self.reg.data["global_mappings"] = SMap(lambda t: self.global_has(t, k), lambda t: self.global_val(t, k),
                                                default=lambda: -1, name="global mappings")

    def type_item(self, t):
        from vtelem.classes import DEFAULTS

        from pyvc import core
        from pyvc.sym import SInt, mk, zint

        if core.CUR.branch(zint(t) >= self.base.t):
            return DEFAULTS["enum"]
        # somebody else's type may look just like an enumeration
        if core.CUR.branch(self.alike_f(zint(t))):
            return DEFAULTS["enum"]
        return self.items0.val_base(t)

    def describes(self, k):
        """The current state is the state after k rounds (seen by arbitrary probes)."""
        from pyvc.runtime import contains
        from pyvc.sym import Iff, Implies, And, Or, Not, mk, same, zint

        self.link(k)
        d, g = self.types.data, self.reg.data["global_mappings"]
        names = d["mappings"]
        out = [("consecutive type identifiers", mk(zint(self.types.curr_id) == self.base.t + self.cnt_f(k)))]
        s, t = self.probe, self.num
        has = names.contains_term(s)
        out.append(("type names", Iff(has, self.name_has(s, k))))
        if self.v.branch_true(has):
            out.append(("type identifiers of names", same(names.get(s), self.name_val(s, k))))
        has = g.contains_term(t)
        # a lookup may leave -1, which stands for 'not mapped'
        val = g.get(t, -1)
        now = Or(Not(has), same(val, -1))
        if self.v.branch_true(self.global_has(t, k)):
            out.append(("global mapping", same(val, self.global_val(t, k))))
        else:
            out.append(("nothing else is mapped", now))
        i, (taken, _) = self.i, self.taken(self.i)
        out.append(("exported identifiers are in use", Implies(mk(self.exported(i.t, k)), mk(self.cnt_f(i.t) < self.cnt_f(k)))))
        out.append(("no conflict so far", Implies(And(mk(i.t < k), taken), self.done(i))))
        return out


def branch_true(v, cond):
    from pyvc.sym import zb

    return v.branch(zb(cond))


@unit("C15/export", props="C15", funcs=FUNCS + ["vtelem.registry:Registry.add"], loops=[Export], concrete=False)
def u_export(v):
    type(v).branch_true = branch_true
    w = World(v)
    v.g.world = w
    from pyvc.sym import SInt, mk, zint

    reg, types = w.reg, w.types
    i = w.i
    taken, done = w.taken(i)[0], w.done(i)
    old_id = w.taken(i)[1]
    # an identifier of the type registry is one of its identifiers; -1 is no enumeration
    foreign_name, foreign_num = w.probe, w.num
    before_has = w.names0.has_base(foreign_name)
    ok = reg.export(types)
    after = types.get_id(w.name_at(i))
    if ok:
        v.check("success: the name of every enumeration is registered", after is not None)
        if v.Not(taken):
            v.check("new enumerations map to themselves", v.same(reg.data["global_mappings"].get(after), i))
            v.check("under a new identifier", after >= w.base)
            v.check("as enumerations", v.same(types.get_item(after), __import__("vtelem.classes", fromlist=["x"]).DEFAULTS["enum"]))
        else:
            v.check("names already there had been exported before", done)
    if taken:
        v.check("existing registrations are never overwritten", v.same(after, old_id))
        if v.Not(done):
            v.check("a conflict is reported", v.Not(ok))
    if before_has:
        v.check("other registrations stay", v.same(types.get_id(foreign_name), w.names0.val_base(foreign_name)))


@unit("C15/add_enum", props="C15", funcs=FUNCS)
def u_add_enum(v):
    from vtelem.registry.enum import EnumRegistry

    reg = EnumRegistry()
    if v.symbolic:
        n, name_at = fill(v, reg, "enums")
    else:
        n = v.int("n", 0, 6)
        names = ["e%d" % i for i in range(n)]
        for nm in names:
            reg.add_enum(user_enum(v, nm))
        name_at = lambda i: names[i]
    name = name_at(v.index("i", n)) if v.bool("known") else v.str("name")
    item = user_enum(v, name)
    found, at = reg.get_enum(item)
    known = reg.get_id(name)
    v.check("an enumeration is found by its name", v.Iff(found, known is not None))
    v.check("under its identifier", v.same(at, known if known is not None else -1))
    ok, got = reg.add_enum(item)
    v.check("a name is accepted exactly once", v.Iff(ok, v.Not(found)))
    if ok:
        v.check("identifiers are consecutive", v.same(got, n))
        v.check("it resolves to what was added", reg.get_item(got) is item)
        v.check("and is found", reg.get_enum(item)[0])


@search("C15")
def search_registries(v):
    """Histories of additions, rebuilds and exports."""
    import json

    from vtelem.classes.user_enum import UserEnum, user_enum as make
    from vtelem.enums.primitive import Primitive
    from vtelem.registry.enum import EnumRegistry as Exported
    from vtelem.registry.enum_retry import EnumRegistry
    from vtelem.registry.type import get_default

    def new(name):
        enum = make(name, {v.int("k", 0, 9): v.str("s"), v.int("k2", 20, 30): "z" + v.str("s")})
        if v.bool("cased"):
            enum = UserEnum(dict(enum.data, name=name.title()))
        return enum

    reg, model = EnumRegistry(), []
    if v.int("large", 0, 9) == 0:
        for i in range(v.int("many", 9, 30)):
            model.append(make("large_%d" % i, {0: "a", 1: "b"}))
            v.check("consecutive", reg.add(model[-1]) == i)
    for _ in range(v.int("steps", 1, 14, cmax=14)):
        op = v.choose("op", ["add", "add", "add", "rebuild", "json", "sorted", "shuffled"])
        if op == "add":
            enum = new("name_%d" % v.int("which", 0, 6))
            out = v.outcome(lambda: reg.add(enum))
            known = enum.name in [x.name for x in model]
            v.check("a name is accepted exactly once", (out[0] == "ok") == (not known))
            if out[0] == "ok":
                v.check("consecutive", out[1] == len(model))
                model.append(enum)
        elif op == "rebuild":
            reg = EnumRegistry(reg.data)
        elif op == "json":
            reg = reg.load_str(reg.json_str())
        elif op == "sorted":
            reg = reg.load_str(json.dumps(json.loads(reg.json_str()), sort_keys=True))
        else:
            data = json.loads(reg.json_str())
            keys = list(data.get("mappings", {}))
            v.rng.shuffle(keys)
            data["mappings"] = {k: data["mappings"][k] for k in keys}
            reg = reg.load_str(json.dumps(data))
        for i, enum in enumerate(model):
            got = v.outcome(lambda i=i: reg.get_enum(i))
            v.check("identifiers resolve", got[0] == "ok" and got[1].name == enum.name)
            v.check("to what was added", got[0] == "ok" and got[1].data["mappings"] == enum.data["mappings"]
                    and got[1].default == enum.default)
        v.check("nothing else resolves", v.fails(lambda: reg.get_enum(len(model))))
    types, enums = get_default(), Exported()
    foreign, exported, kinds = {}, {}, {}
    for i in range(v.int("more", 1, 12, cmax=12)):
        op = v.choose("op2", ["add", "add", "export", "foreign"])
        name = "t_%d" % v.int("which2", 0, 8)
        if op == "add":
            ok, at = enums.add_enum(new(name))
            v.check("consecutive or refused", at == enums.count() - 1 if ok else at == -1)
        elif op == "foreign":
            kind = v.choose("kind", [Primitive.INT8, Primitive.UINT8, Primitive.FLOAT])
            ok, at = types.add(name, kind)
            if ok:
                foreign[name] = at
                kinds[name] = kind
        else:
            names = [enums.get_item(k).name for k in range(enums.count())]
            ok = enums.export(types)
            v.check("conflicts are reported", ok == (not any(nm in foreign for nm in names)))
            for k, nm in enumerate(names):
                if nm in foreign:
                    v.check("foreign registrations stay", types.get_id(nm) == foreign[nm]
                            and types.get_item(foreign[nm]) is kinds[nm])
                    if not ok:
                        break
                else:
                    at = types.get_id(nm)
                    v.check("each is mapped once", at is not None and types.get_item(at) is Primitive.UINT8
                            and enums.data["global_mappings"][at] == k)
                    v.check("always to the same identifier", exported.setdefault(nm, at) == at)
            mapped = [x for x in enums.data["global_mappings"].values() if x != -1]
            v.check("no enumeration is mapped twice", len(mapped) == len(set(mapped)))
