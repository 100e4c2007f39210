"""C20: every command gets one result per handler, or one refusal."""
from pyvc.api import search, unit
from pyvc.loops import LoopSpec

from ._common import free
from .c18_machines import environment
from .c19_writer import Env, T, zi

D = "vtelem.daemon.command_queue:CommandQueueDaemon."
FUNCS = [D + n for n in ("__init__", "register_consumer", "enqueue", "execute")] + [
    "vtelem.daemon.queue:QueueDaemon.__init__", "vtelem.daemon:DaemonBase.increment_metric", "vtelem.daemon:DaemonBase.reset_metric"]
COUNTS = ("command_count", "success_count", "failure_count", "rejected_count")
DONE, RAISES, ODD = range(3)


class World:
    """A daemon with any number of handlers for any commands.

    n(c) is the number of handlers for command c, of which handler i has its
    own callback or not (has), and ends in any way (how, good, msg). ok(k)
    counts the successes of the first k.
    """

    def __init__(self, v):
        import z3

        from pyvc.sym import SMap, SSeq, mk, zstr
        from vtelem.daemon.command_queue import CommandQueueDaemon

        self.v, g = v, v.g
        I, B, S = z3.IntSort(), z3.BoolSort(), z3.StringSort()
        F = lambda nm, *s: z3.Function(v.fresh_name(nm), *s)
        self.known, self.n = F("known", S, B), F("handlers", S, I)
        self.cb, self.how, self.good, self.msg, self.ok = F("callback", I, B), F("how", I, I), F("good", I, B), F("msg", I, S), F("ok", I, I)
        c, i = z3.String(v.fresh_name("c")), z3.Int(v.fresh_name("i"))
        v.add(z3.ForAll([c], self.n(c) >= 0))
        v.add(z3.ForAll([i], z3.And(self.how(i) >= DONE, self.how(i) <= ODD)))
        v.add(self.ok(0) == 0)
        self.table = SMap(lambda s: mk(self.known(zstr(s))), lambda s: SSeq(self.n(zstr(s)), self.entry, tag="handlers"),
                          default=list, name="handlers")
        self.daemon = CommandQueueDaemon("cmd", Env())
        self.daemon.handlers = self.table
        self.base = {}
        for name in COUNTS:
            self.base[name] = v.int(name, 0)
            self.daemon.reset_metric(name, self.base[name])
        self.data = self.daemon.function["metrics_data"]
        self.values = self.daemon.env.values
        g.w = self
        g.called = g.own = g.replies = 0
        g.current = None

    def succeeds(self, i):
        import z3

        return z3.And(self.how(i) == DONE, self.good(i))

    def entry(self, i):
        from pyvc.sym import mk, zint

        i = zint(i)
        v = self.v
        return (lambda cmd: self.handle(i, cmd), (lambda res, msg: self.result(i, res, msg)) if v.branch(self.cb(i)) else None, "")

    def handle(self, i, cmd):
        v, g = self.v, self.v.g
        v.check("each handler is called once, in turn", v.same(T(i), g.called))
        g.called = g.called + 1
        v.check("with the command's data", v.same(len(cmd), len(g.given)))
        for key, val in g.given.items():
            v.check("with the value of each key", key in cmd and v.same(cmd[key], val))
        v.check("what was not given is none", cmd["missing"] is None)
        cmd["extra"] = 5
        if v.branch(self.how(i) == RAISES):
            raise v.choose("exception", [ValueError("no"), KeyError("no"), RuntimeError])
        if v.branch(self.how(i) == ODD):
            return v.choose("odd", [None, True, ("one", "two", "three")])
        from pyvc.sym import SStr

        return mk_bool(self.good(i)), SStr(self.msg(i))

    def report(self, i, res, msg):
        from pyvc.sym import SStr

        v = self.v
        v.check("the outcome is reported", v.Iff(res, T(self.succeeds(i))))
        if v.branch(self.how(i) == DONE):
            v.check("with the handler's message", v.same(msg, SStr(self.msg(i))))
        else:
            v.check("with a message", isinstance(msg, str) and msg != "")

    def result(self, i, res, msg):
        v, g = self.v, self.v.g
        v.check("a handler's own callback is called after it", v.same(T(i + 1), g.called))
        v.check("once", g.own == 0)
        g.own = 1
        self.report(i, res, msg)

    def reply(self, res, msg):
        v, g = self.v, self.v.g
        if g.refusal:
            g.replies = g.replies + 1
            v.check("a refusal is negative", res is False)
            v.check("and says something", isinstance(msg, str) or v.symbolic)
            return
        v.check("one reply for each handler, after it", v.same(g.replies + 1, g.called))
        self.report(zi(g.replies), res, msg)
        g.replies = g.replies + 1

    def counts(self, want):
        out = []
        for name in COUNTS:
            val = self.base[name] + want.get(name, 0)
            out.append(("metric '%s' is exact" % name, self.v.same(self.values["cmd." + name], val)))
            out.append(("counter '%s' is exact" % name, self.v.same(self.data[name], val)))
        return out


def mk_bool(t):
    from pyvc.sym import mk

    return mk(t)


class Handlers(LoopSpec):
    """The first k handlers were called and reported."""

    name = "handlers"
    tag = "handlers"

    def inv(self, S, k):
        g, w, c = S.g, S.g.w, S.ctx
        return [("each handler so far was called", c.same(g.called, k)),
                ("and replied for", c.same(g.replies, k if g.asked else 0))] + w.counts(
                    {"command_count": 1, "success_count": T(w.ok(zi(k))), "failure_count": T(zi(k) - w.ok(zi(k)))})

    def havoc(self, S, k):
        g, w, c = S.g, S.g.w, S.ctx
        g.called, g.replies = c.int("called", 0), c.int("replies", 0)
        for name in COUNTS:
            val = c.int("m." + name)
            w.values["cmd." + name] = val
            w.data[name] = val
        return {}

    def step_begin(self, S, k, item):
        import z3

        w = S.g.w
        S.ctx.add(w.ok(k + 1) == w.ok(k) + z3.If(w.succeeds(k), 1, 0))
        S.g.own = 0

    def step_end(self, S, k):
        w, c = S.g.w, S.ctx
        c.check("a handler's own callback is called", c.Iff(T(w.cb(k)), S.g.own == 1))

    def modifies(self, S):
        g, w = S.g, S.g.w
        return [g, w.data, w.values, w.table.cache]


@unit("C20/handle", props="C20", funcs=FUNCS, loops=[Handlers], concrete=False, opts={"mbqi": False, "branch_ms": 500})
def u_handle(v):
    """One element of the queue, of any form, with any handlers."""
    from pyvc.sym import zstr

    g = v.g
    w = World(v)
    name = v.str("command")
    form = v.choose("form", ["good", "no data", "odd data", "no command", "odd command", "not a mapping"])
    g.given = {}
    if form == "not a mapping":
        elem = v.choose("element", ["text", 5, [], ("command", 1)])
    elif form == "no command":
        elem = v.choose("element", [{}, {"data": {}}, {"Command": "help"}])
    elif form == "odd command":
        elem = {"command": v.choose("command is", [None, 5, ["help"], {}])}
    else:
        elem = {"command": name}
        if form == "odd data":
            elem["data"] = v.choose("data", [None, 7, "text", [1]])
        if form == "good":
            g.given = v.choose("keys", [{}, {"a": 1}, {"a": 2, "b": 3}])
            for key in list(g.given):
                g.given[key] = v.int("value")
            elem["data"] = dict(g.given)
    g.asked = v.choose("somebody wants to know", [True, False])
    valid = form in ("good", "no data", "odd data")
    served = v.And(T(w.known(zstr(name))), T(w.n(zstr(name)) > 0)) if valid else False
    g.refusal = not v.branch(served.t) if valid else True
    before = len(w.table.overlay)
    out = v.outcome(lambda: w.daemon.handle((elem, w.reply if g.asked else None)))
    v.check("the queue keeps serving", out[0] == "ok")
    if out[0] != "ok":
        return
    if g.refusal:
        v.check("no handler runs", v.same(g.called, 0))
        v.check("one refusal", v.same(g.replies, 1 if g.asked else 0))
        want = {"command_count": 1, "rejected_count": 1}
    else:
        n = w.n(zstr(name))
        v.check("every handler ran once", v.same(g.called, T(n)))
        v.check("one reply for each", v.same(g.replies, T(n) if g.asked else 0))
        want = {"command_count": 1, "success_count": T(w.ok(n)), "failure_count": T(n - w.ok(n))}
    for label, cond in w.counts(want):
        v.check(label, cond)
    v.check("the table is as it was", len(w.table.overlay) == before)
    v.check("nothing stays locked", free(v, w.daemon.lock))


@unit("C20/register", props="C20", funcs=FUNCS, concrete=False, opts={"mbqi": False, "branch_ms": 500})
def u_register(v):
    """A handler added is the last one of its command; others are unchanged."""
    from pyvc.sym import SSeq, zstr

    g = v.g
    w = World(v)
    name, probe = v.str("command"), v.str("probe")
    handler = lambda cmd: (True, "")
    with_cb = v.choose("callback", [True, False])
    cb = (lambda res, msg: None) if with_cb else None
    known, n = T(w.known(zstr(name))), w.n(zstr(name))
    was = v.And(T(w.known(zstr(probe))))
    if with_cb:
        w.daemon.register_consumer(name, handler, cb)
    else:
        w.daemon.register_consumer(name, handler)
    v.check("only that command is added", v.Iff(w.table.contains_term(probe), v.Or(was, v.same(probe, name))))
    entry = w.table.get(name)
    v.check("there is a list of handlers", entry is not None)
    if isinstance(entry, SSeq):
        v.check("those before stay", v.And(known, entry.elem == w.entry, v.same(T(entry.n), T(n))))
        last, added = entry.tail[-1] if entry.tail else None, len(entry.tail)
    else:
        v.check("the first one", v.Not(known))
        last, added = entry[-1] if entry else None, len(entry)
    v.check("one handler is added, last", added == 1 and last is not None and last[0] is handler and last[1] is cb)


@unit("C20/execute", props="C20", funcs=FUNCS, concrete=False, opts={"mbqi": False, "branch_ms": 500})
def u_execute(v):
    """The submitter gets the outcome of its command."""
    w = World(v)
    name = v.str("command")
    how = v.choose("serving", ["serves", "refuses", "never"])
    good, text, put = v.bool("good"), v.str("text"), []

    class Source:
        """The queue of a daemon that serves at once, or never."""

        def put(self, item, *_, **__):
            put.append(item)
            if how == "never":
                return
            cmd, cb = item
            v.check("the command itself is queued", cmd is command)
            v.check("somebody waits", cb is not None)
            cb(good if how == "serves" else False, text)

    w.daemon.queue = Source()
    command = {"command": name}
    out = v.outcome(lambda: w.daemon.execute(command))
    v.check("does not fail", out[0] == "ok")
    if out[0] != "ok":
        return
    v.check("queued once", len(put) == 1)
    res, msg = out[1]
    if how == "never":
        v.check("not served is not successful", v.Not(res))
        return
    v.check("the outcome", v.Iff(res, good if how == "serves" else False))
    v.check("with the message", v.same(msg, text))


class Boom(Exception):
    """Raised by a handler."""


@search("C20")
def search_commands(v):
    """A real daemon, handling any history of commands in turn."""
    import json

    from vtelem.daemon.command_queue import CommandQueueDaemon
    from vtelem.factories.telemetry_environment import create_channel_commander

    env = environment(v)
    daemon = CommandQueueDaemon("cmd", env)
    handlers, calls, replies = {"help": [None]}, [], []
    count = dict.fromkeys(COUNTS, 0)

    def handler(uid, how):
        def fn(cmd):
            calls.append((uid, dict(cmd), cmd["what is missing"]))
            if how == "raise":
                raise Boom("boom")
            if how == "odd":
                return None
            return how == "good", "said %d" % uid
        return fn

    own = []
    for step in range(v.int("steps", 1, 30)):
        op = v.choose("op", ["register", "register", "send", "send", "send", "send", "bad", "help", "unknown"])
        name = v.choose("name", ["a", "b", "help", "Ä"])
        cb = (lambda ok, msg: replies.append((ok, msg))) if v.choose("asked", [True, True, False]) else None
        del calls[:], replies[:], own[:]
        if op == "register":
            uid, how = step, v.choose("how", ["good", "bad", "raise", "odd"])
            with_cb = v.choose("own", [True, False])
            daemon.register_consumer(name, handler(uid, how), (lambda ok, msg, uid=uid: own.append((uid, ok, msg))) if with_cb else None,
                                     "help %d" % uid)
            handlers.setdefault(name, []).append((uid, how, with_cb))
            continue
        count["command_count"] += 1
        if op in ("bad", "unknown"):
            elem = v.choose("elem", ["help", 5, [], {}, {"data": {}}, {"command": None}, {"command": ["help"]}, {"command": {}}, {"command": 3}]) \
                if op == "bad" else {"command": v.choose("unknown", ["A", "", "helpme", "c"])}
            out = v.outcome(lambda: daemon.handle((elem, cb)))
            v.check("the queue keeps serving", out[0] == "ok")
            v.check("no handler runs", not calls and not own)
            v.check("one refusal", [r[0] for r in replies] == ([False] if cb else []))
            count["rejected_count"] += 1
        else:
            if op == "help":
                name = "help"
            data = v.choose("data", [None, {}, {"x": 1, "y": [1, 2]}, 5, "text"]) if op == "send" else v.choose(
                "help for", [{}, {"command": "a"}, {"command": "help"}, {"command": "nothing"}, {"indent": True}])
            elem = {"command": name}
            if data is not None:
                elem["data"] = data
            want = handlers.get(name, [])
            out = v.outcome(lambda: daemon.handle((elem, cb)))
            v.check("the queue keeps serving", out[0] == "ok")
            if not want:
                count["rejected_count"] += 1
                v.check("one refusal", [r[0] for r in replies] == ([False] if cb else []))
            else:
                given = data if isinstance(data, dict) else {}
                seen = [h for h in want if h is not None]
                v.check("each handler is called once, in turn", [c[0] for c in calls] == [h[0] for h in seen])
                v.check("with the data", all(c[1] == given and c[2] is None for c in calls))
                res = [True if h is None and not (given.get("command") == "nothing") else None if h is None else h[1] == "good" for h in want]
                first = given.get("command")
                if want[0] is None:
                    res[0] = first is None or first in handlers
                    if cb and res[0]:
                        doc = json.loads(replies[0][1])
                        v.check("the help lists what is registered", doc.keys() == ({first} if first is not None else set(handlers)))
                        for cname, texts in doc.items():
                            v.check("with each handler's help", [t for t in texts if t.startswith("help ")] == [
                                "help %d" % h[0] for h in handlers[cname] if h is not None])
                v.check("one reply for each", [r[0] for r in replies] == (res if cb else []))
                v.check("own callbacks are called", [(o[0], o[1]) for o in own] == [
                    (h[0], h[1] == "good") for h in seen if h[2]])
                for h, r in zip(want, replies):
                    if h is not None and h[1] in ("good", "bad"):
                        v.check("with the handler's message", r[1] == "said %d" % h[0])
                count["success_count"] += sum(res)
                count["failure_count"] += len(res) - sum(res)
        for cname, num in count.items():
            v.check("the metric is exact", env.get_metric("cmd." + cname) == num)
