"""C22: requests are answered completely, by the handler of their path."""
from pyvc import models_url  # noqa: F401 (registers the models)
from pyvc.api import contract, search, unit
from pyvc.loops import LoopSpec

from .c19_writer import T, zi

M = "vtelem.classes.http_request_mapper:"
H = M + "MapperAwareRequestHandler."
FUNCS = [M + "HttpRequestMapper." + n for n in ("__init__", "get_handle", "add_handler")] + [
    H + n for n in ("_no_mapper_response", "_no_handle_response", "_handle", "do_HEAD", "do_GET", "do_POST")] + [
    "vtelem.daemon.http:HttpDaemon.add_handler"]
OPTS = {"mbqi": False, "branch_ms": 500}


class World:
    """A mapper with any handlers for any methods and paths.

    Stated by the mapper itself: whatever has a handler has the data of it.
    """

    def __init__(self, v):
        import z3

        from pyvc.sym import SMap, mk, zstr
        from vtelem.classes.http_request_mapper import HttpRequestMapper

        self.v = v
        S, B, I = z3.StringSort(), z3.BoolSort(), z3.IntSort()
        F = lambda nm, *s: z3.Function(v.fresh_name(nm), *s)
        self.method, self.known, self.ident = F("method", S, B), F("known", S, S, B), F("ident", S, S, I)
        self.headers, self.hname, self.hval = F("headers", I, I), F("hname", I, I, S), F("hval", I, I, S)
        self.hat = F("hat", I, S, I)
        self.good, self.body = F("good", I, B), F("body", I, S)
        m, p = z3.String(v.fresh_name("m")), z3.String(v.fresh_name("p"))
        v.add(z3.ForAll([m, p], z3.Implies(self.known(m, p), self.method(m))))
        both = lambda value: SMap(lambda s: mk(self.method(zstr(s))), lambda s: self.inner(s, value), default=lambda: self.empty(value), name="methods")
        self.mapper = HttpRequestMapper()
        self.mapper.requests = self.requests = both(self.handle)
        self.mapper.handle_data = self.data = both(self.header_map)
        v.g.w = self

    def inner(self, method, value):
        from pyvc.sym import SMap, mk, zstr

        return SMap(lambda p: mk(self.known(zstr(method), zstr(p))), lambda p: value(self.ident(zstr(method), zstr(p))),
                    default=lambda: None, name="paths")

    @staticmethod
    def empty(value):
        from pyvc.sym import SMap

        return SMap(lambda p: False, None, default=lambda: None, name="paths")

    def handle(self, i):
        w = self

        class Handle:
            """The handler with this identifier."""

            ident = i

            def __call__(self, request, data):
                return w.run(i, request, data)

        return Handle()

    def header_map(self, i):
        from pyvc.sym import SMap, SStr

        import z3

        from pyvc.sym import mk, zstr

        def name(k):
            # each name is there once
            self.v.add(self.hat(i, self.hname(i, zi(k))) == zi(k))
            return SStr(self.hname(i, zi(k)))

        def has(s):
            at = self.hat(i, zstr(s))
            return mk(z3.And(at >= 0, at < self.headers(i), self.hname(i, at) == zstr(s)))

        self.v.add(self.headers(i) >= 0)
        res = SMap(has, lambda s: SStr(self.hval(i, self.hat(i, zstr(s)))), keys=name, n=self.headers(i), tag="headers", name="header")
        res.items = lambda: self.pairs(i)
        res.ident = i
        return res

    def pairs(self, i):
        from pyvc.sym import SSeq, SStr

        return SSeq(self.headers(i), lambda k: (SStr(self.hname(i, zi(k))), SStr(self.hval(i, zi(k)))), tag="headers")

    def run(self, i, request, data):
        from pyvc.runtime import dict_find
        from pyvc.sym import SStr, mk

        v, g = self.v, self.v.g
        v.check("one handler runs", g.ran is None)
        v.check("before any answer", not g.answer)
        g.ran = i
        v.check("with the request", request is g.request)
        v.check("what was not given is none", data["missing"] is None)
        for key, val in g.given:
            hit = dict_find(data, key)
            v.check("with what was given", hit is not None and v.same(data[hit[0]], val))
        return mk(self.good(i)), SStr(self.body(i))


class Headers(LoopSpec):
    """The first k headers of the handler were sent."""

    name = "headers"
    tag = "headers"

    def inv(self, S, k):
        g, c = S.g, S.ctx
        return [("the headers so far are sent", c.same(g.sent, k)), ("after the status", g.answer == ["status"])]

    def havoc(self, S, k):
        S.g.sent = S.ctx.int("sent", 0)
        return {}

    def modifies(self, S):
        return [S.g]


def request_class(v):
    from vtelem.classes.http_request_mapper import MapperAwareRequestHandler

    g, w = v.g, v.g.w

    class Request(MapperAwareRequestHandler):
        """A request whose answer is looked at as it is made."""

        close_connection = False

        def __init__(self):
            pass

        def send_error(self, code, message=None, explain=None):
            v.check("nothing was answered before an error", not g.answer)
            g.answer = ["error"]
            g.status, g.explain = code, explain

        def send_response(self, code, message=None):
            v.check("one status, first", not g.answer)
            g.answer = ["status"]
            g.status = code

        def send_header(self, key, value):
            from pyvc.sym import SStr

            v.check("headers come after the status", g.answer == ["status"])
            if key is not None and isinstance(key, str) and key.lower() == "content-length":
                v.check("the length is announced once", g.length is None)
                g.length = value
                return
            i = g.ran
            v.check("of the handler that ran", i is not None)
            if i is not None:
                v.check("each header of the handler, in turn", v.And(v.same(key, SStr(w.hname(i, zi(g.sent)))), v.same(value, SStr(w.hval(i, zi(g.sent))))))
            g.sent = g.sent + 1

        def end_headers(self):
            v.check("the headers end once, after the status", g.answer == ["status"])
            g.answer = ["status", "end"]

        def log_request(self, code="-", size="-"):
            pass

        def log_message(self, *args):
            pass

    class Out:
        """Where the body goes."""

        def write(self, data):
            v.check("the body comes once, after the headers", g.answer == ["status", "end"])
            g.answer = ["status", "end", "body"]
            g.written = data

        def flush(self):
            pass

    res = Request()
    res.wfile = Out()
    return res


@contract(M + "get_post_request_data")
def post_data(v, request):
    """The fields of the request, whatever they are."""
    v.check("of this request", request is v.g.request)
    return dict(v.g.posted)


@unit("C22/respond", props="C22", funcs=FUNCS, uses=[M + "get_post_request_data"], loops=[Headers], concrete=False, opts=OPTS)
def u_respond(v):
    """Any request, with any table of handlers."""
    import types

    U = models_url
    from pyvc.sym import SStr, mk, zstr, LOWER, lift_bytes

    g = v.g
    w = World(v)
    g.ran, g.answer, g.sent, g.length, g.written, g.status, g.explain, g.given = None, [], 0, None, None, None, None, []
    method = v.choose("method", ["GET", "HEAD", "POST"])
    mapped = v.choose("server", ["with mapper", "without"]) == "with mapper"
    g.request = req = request_class(v)
    req.command = method
    req.path = path = v.str("path")
    req.server = types.SimpleNamespace(mapper=w.mapper) if mapped else types.SimpleNamespace()
    g.posted = {}
    if method == "POST":
        g.posted = v.choose("posted", [{}, {"a": 1}])
    t = zstr(path)
    q = U.QUERY(t)
    import z3
    asked = z3.And(z3.Length(q) != 0, U.FIELDS(q) > 0)
    bad = v.branch(U.BAD(t))
    if not bad and v.branch(asked):
        g.given.append((SStr(U.NAME(q, 0)), [SStr(U.VALUE(q, 0))]))
        if g.posted:
            v.assume(U.NAME(q, 0) != z3.StringVal("a"))
        v.assume(U.NAME(q, 0) != z3.StringVal("missing"))
    for key, val in g.posted.items():
        g.given.append((key, val))
    handler = {"GET": req.do_GET, "HEAD": req.do_HEAD, "POST": req.do_POST}[method]
    sizes = [len(w.requests.overlay), len(w.data.overlay)]
    out = v.outcome(handler)
    v.check("an answer is made", out[0] == "ok")
    if out[0] != "ok":
        return
    name = z3.StringVal("POST" if method == "POST" else "GET")
    low = LOWER(U.PATH(t))
    has = not bad and mapped and v.branch(w.known(name, low))
    v.check("looking up adds nothing", sizes == [len(w.requests.overlay), len(w.data.overlay)])
    if not has:
        v.check("no handler runs", g.ran is None)
        v.check("an error is answered", g.answer == ["error"])
        v.check("that fits", v.same(int(g.status), 404 if bad or mapped else 501))
        return
    v.check("the handler of method and path runs", g.ran is not None)
    if g.ran is None:
        return
    v.check("the handler of method and path", T(g.ran == w.ident(name, low)))
    content = SStr(w.body(g.ran))
    if not v.branch(w.good(g.ran)):
        v.check("a failure is answered", g.answer == ["error"])
        v.check("as a bad request", int(g.status) == 400)
        v.check("with the handler's text", g.explain is not None and v.same(g.explain, content))
        return
    raw = content.encode()
    v.check("a success", int(g.status) == 200)
    v.check("complete", g.answer == (["status", "end"] if method == "HEAD" else ["status", "end", "body"]))
    v.check("with every header of the handler", v.same(g.sent, T(w.headers(g.ran))))
    v.check("and the number of bytes", g.length is not None and v.same(g.length, str_of(raw.length())))
    if method != "HEAD" and g.written is not None:
        v.check("the body is the handler's", v.same(lift_bytes(g.written), raw))


def str_of(n):
    from pyvc.models import m_str

    return m_str(n)


@unit("C22/lookup", props="C22", funcs=FUNCS, concrete=False, opts=OPTS)
def u_lookup(v):
    """A handler added is found for its method and path, in any case of
    letters, and no other one changes."""
    import z3

    from pyvc.sym import LOWER, zstr

    w = World(v)
    method, path = v.str("method"), v.str("path")
    kind, asked = v.str("asked method"), v.str("asked path")
    extra = v.choose("data", [None, {"X-Header": "1"}])
    mine = lambda request, data: (True, "")
    if v.choose("through", ["mapper", "daemon"]) == "mapper":
        w.mapper.add_handler(method, path, mine, "what it does", extra, "text/html", "utf-8")
    else:
        import types

        from vtelem.daemon.http import HttpDaemon

        daemon = object.__new__(HttpDaemon)
        daemon.server = types.SimpleNamespace(mapper=w.mapper)
        daemon.add_handler(method, path, mine, "what it does", extra, "text/html")
    v.check("the data given is left alone", extra is None or extra == {"X-Header": "1"})
    key = z3.Concat(z3.StringVal("/"), LOWER(zstr(path)))
    low = LOWER(zstr(asked))
    hit = v.branch(z3.And(zstr(kind) == zstr(method), low == key))
    known = None if hit else v.branch(w.known(zstr(kind), low))
    handle, data = w.mapper.get_handle(kind, asked)
    if hit:
        v.check("the handler added is found", handle is mine)
        v.check("with its type", isinstance(data, dict) and data.get("Content-Type") == "text/html; charset=utf-8")
        v.check("its description", isinstance(data, dict) and data.get("Description") == "what it does")
        v.check("and its data", extra is None or data.get("X-Header") == "1")
        v.check("and nothing else", len(data) == (2 if extra is None else 3))
        return
    if known:
        v.check("others are found as before", getattr(handle, "ident", None) is not None and v.And(
            T(handle.ident == w.ident(zstr(kind), low)), getattr(data, "ident", None) is not None and T(data.ident == handle.ident)))
    else:
        v.check("nothing else is found", handle is None and data is None)


class Bench:
    """Requests to a real handler class, over byte streams."""

    def __init__(self, mapper):
        import types

        self.server = types.SimpleNamespace(mapper=mapper) if mapper is not None else types.SimpleNamespace()

    def ask(self, raw):
        import io

        from vtelem.classes.http_request_mapper import MapperAwareRequestHandler

        class Quiet(MapperAwareRequestHandler):
            """As it is, but from and to memory."""

            def setup(self):
                self.rfile, self.wfile = io.BytesIO(raw), io.BytesIO()

            def finish(self):
                pass

        return Quiet(None, ("127.0.0.1", 1), self.server).wfile.getvalue()


def split(answer, body=True):
    """An answer as (status, headers, body); the rest must be nothing."""
    head, _, rest = answer.partition(b"\r\n\r\n")
    lines = head.decode("latin-1").split("\r\n")
    return int(lines[0].split()[1]), [tuple(x.split(": ", 1)) for x in lines[1:]], rest


@search("C22")
def search_http(v):
    """Real requests to real handlers, of any history."""
    import json
    from urllib.parse import quote

    from vtelem.classes.http_request_mapper import HttpRequestMapper

    mapper = HttpRequestMapper()
    bench = Bench(mapper)
    table, calls = {("GET", "/"): None}, []
    shared = {"X-More": "yes"}

    def handler(uid, good, text):
        def fn(request, data):
            calls.append((uid, request.command, {k: x for k, x in data.items()}, data["what is missing"]))
            return good, text
        return fn

    paths = ["", "a", "A", "a/b", "data.json", "x-y", "xyz"]
    for step in range(v.int("steps", 1, 25)):
        op = v.choose("op", ["add", "ask", "ask", "ask", "index", "odd", "no mapper", "post"])
        del calls[:]
        if op == "add":
            method, path = v.choose("method", ["GET", "GET", "POST"]), v.choose("path", paths[1:])
            good, text = v.choose("good", [True, True, False]), v.choose("text", ["", "{}", "text", "Ä€ and 𝄞", "x" * 5000, "<a>&\n"])
            kind = v.choose("type", ["application/json", "text/html"])
            extra = v.choose("extra", [None, {"X-More": "yes"}, shared])
            mapper.add_handler(method, path, handler(step, good, text), "number %d" % step, extra, kind)
            table[(method, "/" + path.lower())] = (step, good, text, kind, extra)
            continue
        if op == "index":
            status, heads, body = split(bench.ask(b"GET / HTTP/1.0\r\n\r\n"))
            v.check("the index is found", status == 200)
            doc = json.loads(body)
            v.check("and lists each handler once", sorted((m, d["path"]) for m in doc for d in doc[m]) == sorted(table))
            for (method, path), entry in table.items():
                if entry is not None:
                    v.check("with its description", [d["description"] for d in doc[method] if d["path"] == path] == ["number %d" % entry[0]])
            continue
        if op == "no mapper":
            status, heads, body = split(Bench(None).ask(b"GET / HTTP/1.0\r\n\r\n"))
            v.check("without a mapper nothing is implemented", status == 501)
            continue
        if op == "odd":
            target = v.choose("target", ["//[", "http://[::1", "//a]b"])
            status, heads, body = split(bench.ask(("GET %s HTTP/1.0\r\n\r\n" % target).encode()))
            v.check("an address that is none has no handler", status == 404 and not calls)
            continue
        path = "/" + v.choose("ask for", paths)
        if v.choose("case", [False, True]):
            path = path.upper()
        query = v.choose("query", ["", "", "?q=1", "?q=1&q=2&r=%C3%84", "?"])
        want_data = {"?q=1": {"q": ["1"]}, "?q=1&q=2&r=%C3%84": {"q": ["1", "2"], "r": ["Ä"]}}.get(query, {})
        method = v.choose("by", ["GET", "GET", "HEAD", "POST"]) if op == "ask" else "POST"
        raw, more = b"", ""
        if op == "post":
            form = v.choose("form", ["url", "none", "multi", "other"])
            if form == "url":
                raw = b"f=%C3%9C&g=2&g=3"
                more = "Content-Type: application/x-www-form-urlencoded\r\n"
                want_data = {"f": ["Ü"], "g": ["2", "3"], **want_data}
            if form == "other":
                raw = b"{}"
                more = "Content-Type: application/json\r\n"
            if form == "multi":
                raw = b'--bound\r\nContent-Disposition: form-data; name="one"\r\n\r\nfirst\r\n--bound\r\nContent-Disposition: form-data; name="two"\r\n\r\nsecond\r\n--bound--\r\n'
                more = "Content-Type: multipart/form-data; boundary=bound\r\n"
            if raw:
                more += "Content-Length: %d\r\n" % len(raw)
        status, heads, body = split(bench.ask(("%s %s%s HTTP/1.0\r\n%s\r\n" % (method, path, query, more)).encode() + raw))
        kind = "POST" if method == "POST" else "GET"
        if (kind, path.lower()) not in table:
            v.check("without a handler there is an error", status == 404 and not calls)
            continue
        entry = table[(kind, path.lower())]
        names = dict(heads)
        if entry is None:
            v.check("the index is found", status == 200 and not calls)
            v.check("complete", method == "HEAD" or int(names["Content-Length"]) == len(body))
            continue
        uid, good, text, rtype, extra = entry
        v.check("its handler runs once", [(c[0], c[1]) for c in calls] == [(uid, method)])
        if op == "post" and more.startswith("Content-Type: multipart"):
            parts = calls[0][2].pop("parts")
            v.check("with the parts", [(p["headers"]["content-disposition"]["name"], p["body"][0]) for p in parts] == [("one", "first"), ("two", "second")])
        v.check("with the data", calls[0][2] == want_data and calls[0][3] is None)
        if not good:
            v.check("a failure is an error", status == 400)
            continue
        v.check("a success", status == 200)
        enc = text.encode("utf-8")
        v.check("the length is that of the body", [h[1] for h in heads if h[0].lower() == "content-length"] == [str(len(enc))])
        v.check("the body is the handler's", body == (b"" if method == "HEAD" else enc))
        v.check("and has its type", [h[1] for h in heads if h[0].lower() == "content-type"] == [rtype + "; charset=utf-8"])
        v.check("and its data", extra is None or names.get("X-More") == "yes")
