"""Model of urllib.parse: any parts, the same ones for the same text."""
import types
import urllib.parse as _real
import z3

from . import core
from .models import model
from .sym import SStr, Sym, mk, zstr

S = z3.StringSort()
PATH, QUERY = z3.Function("url_path", S, S), z3.Function("url_query", S, S)
REST = {n: z3.Function("url_" + n, S, S) for n in ("scheme", "netloc", "params", "fragment")}
BAD, FIELDS = z3.Function("url_bad", S, z3.BoolSort()), z3.Function("query_fields", S, z3.IntSort())
NAME, VALUE = z3.Function("query_name", S, z3.IntSort(), S), z3.Function("query_value", S, z3.IntSort(), S)


@model(_real.urlparse)
def m_urlparse(url, scheme="", allow_fragments=True):
    if not isinstance(url, Sym) or scheme or allow_fragments is not True:
        return _real.urlparse(url, scheme, allow_fragments)
    t = zstr(url)
    if core.CUR.branch(BAD(t)):
        raise ValueError("not a url")
    return types.SimpleNamespace(path=SStr(PATH(t)), query=SStr(QUERY(t)), **{n: SStr(f(t)) for n, f in REST.items()})


@model(_real.parse_qs)
def m_parse_qs(qs, *args, **kwargs):
    """The fields of a query: none, or one with any name and values.

    More fields are merged in the same way; the code under contract never
    looks at them one by one.
    """
    if not isinstance(qs, Sym) or args or kwargs:
        return _real.parse_qs(qs, *args, **kwargs)
    t = zstr(qs)
    c = core.CUR
    res = {}
    if c.branch(FIELDS(t) > 0):
        res[mk(NAME(t, 0))] = [mk(VALUE(t, 0))]
    return res
