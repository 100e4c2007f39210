"""C14: enumerations map strings and integers to each other exactly."""
from pyvc.api import search, unit
from pyvc.loops import LoopSpec

from .c19_writer import T

U = "vtelem.classes.user_enum:"
FUNCS = [U + n for n in ("UserEnum.get_str", "UserEnum.get_value", "UserEnum.get_primitive", "UserEnum.default")]
BUILD = [U + n for n in ("coerce_enum", "reverse_map", "user_enum_data", "UserEnum.init", "user_enum", "UserEnum.__iter__")]


class Content:
    """An arbitrary enumeration: a finite injective map of integers to lower-case strings."""

    def __init__(self, v, name="enum", n=None):
        self.v = v
        if v.symbolic:
            import z3

            tag = v.fresh_name(name)
            self.has_f = z3.Function(tag + ".has", z3.IntSort(), z3.BoolSort())
            self.str_f = z3.Function(tag + ".str", z3.IntSort(), z3.StringSort())
            self.val_f = z3.Function(tag + ".val", z3.StringSort(), z3.IntSort())
        else:
            self.map = draw_content(v, n)

    # symbolic membership; instances of the invariant are added on the way
    def link(self, t):
        import z3

        from pyvc import core
        from pyvc.sym import LOWER

        s = self.str_f(t)
        core.CUR.add(z3.Implies(self.has_f(t), z3.And(self.val_f(s) == t, LOWER(s) == s)))

    def has(self, key):
        if not self.v.symbolic:
            return key in self.map
        from pyvc.sym import mk, zint

        t = zint(key)
        self.link(t)
        return mk(self.has_f(t))

    def string(self, key):
        if not self.v.symbolic:
            return self.map[key]
        from pyvc.sym import SStr, zint

        self.link(zint(key))
        return SStr(self.str_f(zint(key)))

    def knows(self, s):
        """Is this exact (lower-case) string the string of an entry?"""
        if not self.v.symbolic:
            return s in self.map.values()
        import z3

        from pyvc.sym import mk, zstr

        t = self.val_f(zstr(s))
        self.link(t)
        return mk(z3.And(self.has_f(t), self.str_f(t) == zstr(s)))

    def value(self, s):
        if not self.v.symbolic:
            return [k for k, x in self.map.items() if x == s][0]
        from pyvc.sym import SInt, zstr

        return SInt(self.val_f(zstr(s)))

    def key(self, name="key"):
        """The integer of an arbitrary entry."""
        if not self.v.symbolic:
            return self.v.choose(name, sorted(self.map))
        k = self.v.int(name)
        self.v.assume(self.has(k))
        return k

    def enum(self, name="things", default=None):
        from vtelem.classes.user_enum import user_enum

        v = self.v
        if not v.symbolic:
            return user_enum(name, dict(self.map), default)
        from pyvc.sym import SMap

        res = user_enum(name, {0: "x"})
        res.data["mappings"] = SMap(self.has, self.string, None, name="mappings")
        res.strings = SMap(self.knows, self.value, default=lambda: None, name="strings")
        first = self.key("first")
        res.data["default"] = self.string(first)
        self.first = first
        return res


def draw_content(v, n=None):
    """A concrete injective enumeration."""
    n = v.int("n", 1, 12, cmax=12) if n is None else n
    res = {}
    while len(res) < n:
        key = v.int("key", -3, 300, cmax=300)
        s = (v.str("s") + v.choose("tail", ["", "_a", "-B", "É"])).lower()
        if key in res or s in res.values():
            s = "%s.%d" % (s, len(res))
            key = 400 + len(res)
        if s in res.values():
            continue
        res[key] = s
    return res


@unit("C14/lookup", props="C14", funcs=FUNCS)
def u_lookup(v):
    c = Content(v)
    enum = c.enum()
    key = c.key()
    out = v.outcome(lambda: enum.get_str(key))
    v.check("every value has its string", out[0] == "ok" and v.same(out[1], c.string(key)))
    back = v.outcome(lambda: enum.get_value(c.string(key)))
    v.check("and the string leads back to the value", back[0] == "ok" and v.same(back[1], key))
    other = v.int("other")
    out = v.outcome(lambda: enum.get_str(other))
    v.check("values without entry have no string", v.Iff(out[0] == "ok", c.has(other)))
    s = v.str("s")
    out = v.outcome(lambda: enum.get_value(s))
    v.check("unknown strings are refused, known ones found", v.Iff(out[0] == "ok", c.knows(s.lower())))
    if out[0] == "ok":
        v.check("case is ignored", v.same(out[1], c.value(s.lower())))
        v.check("its string is the one looked up, in lower case", v.same(enum.get_str(out[1]), s.lower()))
    again = v.outcome(lambda: enum.get_value(s))
    v.check("the outcome does not depend on earlier lookups", again[0] == out[0])


@unit("C14/primitive", props="C14", funcs=FUNCS + ["vtelem.classes.type_primitive:TypePrimitive.set"])
def u_primitive(v):
    from vtelem.enums.primitive import Primitive

    c = Content(v)
    enum = c.enum()
    s = v.str("s") if v.bool("any") else c.string(c.key())
    out = v.outcome(lambda: enum.get_primitive(s))
    known = c.knows(s.lower())
    if out[0] == "ok":
        v.check("only known strings give a primitive", known)
        if known:
            v.check("it holds exactly the integer", v.same(out[1].get(), c.value(s.lower())))
        v.check("it is of the enumeration type", out[1].type is Primitive.UINT8)
    elif known:
        val = c.value(s.lower())
        v.check("a known string is refused only when its value does not fit", v.Or(val < 0, val > 255))


@unit("C14/pure", props="C14", funcs=FUNCS)
def u_pure(v):
    """Lookups, also failing ones, change nothing."""
    c = Content(v)
    enum = c.enum()
    s = v.str("s")
    how = v.choose("how", ["value", "primitive", "string"])
    before = enum.default
    v.outcome(lambda: enum.get_value(s) if how == "value" else enum.get_primitive(s) if how == "primitive"
              else enum.get_str(v.int("key")))
    probe, num = v.str("probe"), v.int("num")
    if v.symbolic:
        from pyvc.runtime import contains

        v.check("no string appears", v.Iff(contains(probe, enum.strings), c.knows(probe)))
        v.check("no value appears", v.Iff(contains(num, enum.data["mappings"]), c.has(num)))
    else:
        v.check("no string appears", sorted(enum) == sorted(c.map.values()))
        v.check("no value appears", enum.data["mappings"] == c.map)
    v.check("the default stays", v.same(enum.default, before))


# -- construction --------------------------------------------------------------
class Pairs:
    """What an enumeration is made from: any number of (integer, string) pairs, in order.

    Integers and lower-case strings are distinct: idx and at invert them.
    """

    def __init__(self, v, most=400):
        self.v = v
        self.n = v.int("entries", 0, cmax=most)
        if not v.symbolic:
            n = v.choose("size", [0, 1, 2, 3, 7, 12, 255, 256, 257]) if self.n > 12 else self.n
            low = draw_content(v, n) if n <= 12 else {(7 * i) % 1009 - 3: "s%d" % i for i in range(n)}
            self.n = n
            self.pairs = [(k, mixed(v, s)) for k, s in low.items()]
            return
        import z3

        I, S = z3.IntSort(), z3.StringSort()
        F = lambda nm, *s: z3.Function(v.fresh_name(nm), *s)
        self.key_f, self.idx_f, self.str_f, self.at_f = F("key", I, I), F("idx", I, I), F("str", I, S), F("at", S, I)

    def link(self, i):
        import z3

        from pyvc import core
        from pyvc.sym import LOWER

        low = LOWER(self.str_f(i))
        core.CUR.add(z3.Implies(z3.And(i >= 0, i < self.n.t), z3.And(
            self.idx_f(self.key_f(i)) == i, self.at_f(low) == i, LOWER(low) == low)))

    def key(self, i):
        if not self.v.symbolic:
            return self.pairs[i][0]
        from pyvc.sym import SInt, zint

        self.link(zint(i))
        return SInt(self.key_f(zint(i)))

    def string(self, i):
        """As given: any case."""
        if not self.v.symbolic:
            return self.pairs[i][1]
        from pyvc.sym import SStr, zint

        self.link(zint(i))
        return SStr(self.str_f(zint(i)))

    # membership, as formulas
    def has(self, k, upto=None):
        import z3

        from pyvc.sym import zint

        i = self.idx_f(zint(k))
        self.link(i)
        return z3.And(i >= 0, i < (self.n.t if upto is None else upto), self.key_f(i) == zint(k))

    def knows(self, s, upto=None):
        """Is this the lower-case string of an entry?"""
        import z3

        from pyvc.sym import LOWER, zstr

        i = self.at_f(zstr(s))
        self.link(i)
        return z3.And(i >= 0, i < (self.n.t if upto is None else upto), LOWER(self.str_f(i)) == zstr(s))

    def value(self, s):
        from pyvc.sym import zstr

        i = self.at_f(zstr(s))
        self.link(i)
        return self.key_f(i)

    def lowered(self, k, upto=None):
        """The string of an integer; lower case for the first upto entries."""
        import z3

        from pyvc.sym import LOWER, SStr, zint

        i = self.idx_f(zint(k))
        self.link(i)
        return SStr(z3.If(i < (self.n.t if upto is None else upto), LOWER(self.str_f(i)), self.str_f(i)))

    def known(self, s):
        if not self.v.symbolic:
            return s in [x.lower() for _, x in self.pairs]
        return T(self.knows(s))

    def listed(self, k):
        if not self.v.symbolic:
            return k in [x for x, _ in self.pairs]
        return T(self.has(k))

    def values(self):
        if not self.v.symbolic:
            return dict(self.pairs)
        from pyvc.sym import SMap

        return SMap(lambda k: T(self.has(k)), lambda k: self.lowered(k, 0), None, self.key, self.n.t, "entries", "values")

    def coerced(self, k, fresh, default):
        """The map of integers to strings after k rounds of lowering."""
        from pyvc.sym import SMap

        if fresh:
            return SMap(lambda x: T(self.has(x, k)), lambda x: self.lowered(x, k), default, self.key, k, "entries", "entries")
        return SMap(lambda x: T(self.has(x)), lambda x: self.lowered(x, k), default, self.key, self.n.t, "entries", "entries")

    def strings(self, k, default):
        """The map of strings to integers after k rounds."""
        from pyvc.sym import SInt, SMap

        return SMap(lambda s: T(self.knows(s, k)), lambda s: SInt(self.value(s)), default,
                    lambda i: self.string(i).lower(), k, "strings", "strings")


def mixed(v, s):
    """The same string in another case, where lower() leads back."""
    return "".join(ch.upper() if v.bool("upper") and ch.upper().lower() == ch else ch for ch in s[:4]) + s[4:] if \
        (s[:4] + s[4:]).lower() == s else s


class Building(LoopSpec):
    """k entries were put into lower case, or into the reverse map."""

    name = "entries"
    tag = "entries"

    def role(self, S):
        """(the mapping made, what it is)"""
        from pyvc.core import Unsupported
        from pyvc.sym import VDict

        maps = [x for nm, x in S.locals.items() if type(x) is VDict and not nm.startswith("_vc")]
        rev = "reverse" in S.cut.key[0] or any(x.vc is not None and x.vc.tag == "strings" for x in maps)
        made = [x for x in maps if x.vc is None or x.vc.tag == ("strings" if rev else "entries")]
        if len(made) != 1 or (made[0].vc is None and dict.__len__(made[0])):
            raise Unsupported("no single mapping is made")
        if not hasattr(S, "fresh"):
            S.fresh = made[0].vc is None
        return made[0], "strings" if rev else "entries"

    def havoc(self, S, k):
        d, what = self.role(S)
        p = S.g.p
        d.vc = p.strings(k, d.default_factory) if what == "strings" else p.coerced(k, S.fresh, d.default_factory)
        return {}

    def inv(self, S, k):
        from pyvc.sym import Iff, same, zb, zint

        d, what = self.role(S)
        p, c = S.g.p, S.ctx
        k = zint(k)
        if d.vc is None:
            return [("nothing yet", T(k == 0))]
        n = d.vc.length()
        if what == "strings":
            has, want = d.vc.contains_term(S.g.s), T(p.knows(S.g.s, k))
            out = [("one string each", T(zint(n) == k)), ("exactly the strings so far", Iff(has, want))]
            if c.branch(zb(want)):
                out.append(("with their integers", same(d.vc.get(S.g.s, -1), T(p.value(S.g.s)))))
            return out
        upto = k if S.fresh else None
        has, want = d.vc.contains_term(S.g.num), T(p.has(S.g.num, upto))
        out = [("no entry is added", T(zint(n) == (k if S.fresh else p.n.t))), ("exactly these integers", Iff(has, want))]
        if c.branch(zb(want)):
            out.append(("with their strings", same(d.vc.get(S.g.num, ""), p.lowered(S.g.num, k))))
        return out

    def step_begin(self, S, k, item):
        S.g.p.link(k)

    def modifies(self, S):
        d, _ = self.role(S)
        return [d, d.vc, d.vc.overlay, d.vc.cache]


@unit("C14/build", props="C14", funcs=BUILD + FUNCS, loops=[Building])
def u_build(v):
    """Construction from any number of integer and string pairs."""
    from vtelem.classes.user_enum import user_enum

    p = v.g.p = Pairs(v)
    v.g.num, v.g.s = v.int("num"), v.str("probe")
    default = v.str("default") if v.bool("configured") else None
    out = v.outcome(lambda: user_enum("SomeThing", p.values(), default))
    v.check("made exactly when there are entries, and not too many", v.Iff(out[0] == "ok", v.And(p.n > 0, p.n <= 256)))
    if out[0] != "ok":
        return
    enum = out[1]
    v.check("the name", enum.name == "some_thing")
    v.check("the configured default, or the first entry",
            v.same(enum.default, default if default is not None else p.string(0).lower()))
    look = v.choose("look", ["an entry", "an integer", "a string", "all"])
    if look == "an entry":
        i = v.index("i", p.n)
        v.check("the string of each value", v.same(enum.get_str(p.key(i)), p.string(i).lower()))
        v.check("the value of each string", v.same(enum.get_value(p.string(i)), p.key(i)))
    elif look == "an integer":
        got = v.outcome(lambda: enum.get_str(v.g.num))
        v.check("the given integers have strings", v.Implies(p.listed(v.g.num), got[0] == "ok"))
    elif look == "a string":
        got = v.outcome(lambda: enum.get_value(v.g.s))
        v.check("exactly the given strings are known", v.Iff(got[0] == "ok", p.known(v.g.s.lower())))
    else:
        it = type(enum).__iter__(enum)
        if v.symbolic:
            seq = it.seq
            v.check("it yields as many strings as entries", T(seq.n == p.n.t))
            i = v.index("at", p.n)
            v.check("in order", v.same(seq.get(i), p.string(i).lower()))
        else:
            v.check("it yields the strings in order", list(it) == [s.lower() for _, s in p.pairs])


@search("C14")
def search_enums(v):
    """Random enumerations, compared with the content they were made from."""
    from enum import IntEnum

    from vtelem.classes.user_enum import UserEnum, from_enum, user_enum

    content = draw_content(v, v.choose("n", [1, 2, 5, 40, 256]))
    cased = {k: "".join(ch.upper() if v.rng.random() < 0.5 and ch.upper().lower() == ch else ch for ch in s) for k, s in content.items()}
    default = v.choose("default", [None, cased[v.choose("which", list(cased))]])
    made = v.choose("made", ["pairs", "class", "reload"])
    if made == "class":
        content = {k: "m%d_%s" % (i, "x" * (i % 3)) for i, k in enumerate(content)}
        enum = from_enum(IntEnum("SomeThing", {s.upper(): k for k, s in content.items()}))
        default = None
        v.check("named after the class", enum.name == "some_thing")
    else:
        enum = user_enum("SomeThing", dict(cased), default)
    if made == "reload":
        enum = enum.load_str(enum.json_str())
        v.check("reloading keeps the kind", isinstance(enum, UserEnum))
    if made != "reload" or default is not None:
        v.check("default", enum.default == (default if default is not None else list(content.values())[0]))
    else:
        v.check("default", enum.default == list(content.values())[0])
    for i in range(20):
        s = v.choose("probe", ["nope", "UNKNOWN", "", "none", cased[v.choose("k", list(cased))]])
        out = v.outcome(lambda: enum.get_value(s))
        known = s.lower() in content.values()
        v.check("found exactly when known", (out[0] == "ok") == known)
        if known:
            v.check("value", content[out[1]] == s.lower())
        prim = v.outcome(lambda: enum.get_primitive(s))
        if prim[0] == "ok":
            v.check("primitive", known and prim[1].get() == out[1])
        else:
            v.check("refused only for a reason", not known or not 0 <= out[1] <= 255)
        k = v.choose("key", list(content) + [-7, 1000])
        got = v.outcome(lambda: enum.get_str(k))
        v.check("string", (got[0] == "ok") == (k in content) and (got[0] != "ok" or got[1] == content[k]))
        v.check("iteration yields the strings", sorted(enum) == sorted(content.values()))
    too_many = v.outcome(lambda: user_enum("big", {i: "s%d" % i for i in range(257)}))
    v.check("more entries than the type holds are refused", too_many[0] == "raise")
    v.check("an empty enumeration is refused", v.fails(lambda: user_enum("none", {})))
