"""Wild: a value about which nothing at all is known.

Every operation on it may raise, or give any result (again wild, maybe None);
every decision on it may go either way. It stands for any collaborator, any
argument and any content of a data structure, where only the effects of the
code itself matter. It changes nothing of what the code under contract owns.
"""
from . import core

USED = False    # set by the contracts that use it


class Havoc(Exception):
    """Whatever a collaborator may raise."""


class Stop(BaseException):
    """Not even an Exception."""


class Wild:
    """See above. Attributes given by keyword are exactly those objects.

    ``hook(name, args, kwargs)`` is told every call of it or of anything that
    comes out of it; ``name`` is the attribute or the (string) key that gave
    what is called, None for anything else.
    """

    def __init__(self, label="x", raises=(Havoc,), none=True, hook=None, name=None, **attrs):
        d = self.__dict__
        d["_label"], d["_raises"], d["_none"] = label, raises, none
        d["_hook"], d["_name"] = hook, name
        d.update(attrs)

    # outcomes
    def _new(self, name=None):
        return Wild(self._label, self._raises, self._none, self._hook, name)

    def _may_raise(self):
        how = core.CUR.choose("%s raises" % self._label, ["no"] + list(self._raises)) if self._raises else "no"
        if how != "no":
            raise how("wild")

    def _any(self):
        self._may_raise()
        return self._new()

    def vc_unpack(self, n):
        self._may_raise()
        return tuple(self._new() for _ in range(n))

    def vc_none(self):
        return bool(self._none) and self._flag()

    def _flag(self, *_, **__):
        return core.CUR.choose("%s decides" % self._label, [True, False])

    def vc_external(self, f):
        """An external function of it."""
        if f is isinstance or f is hasattr or f is issubclass or f is callable:
            return self._flag()
        return self._any()

    def vc_seq(self):
        """Iterated: any number of wild elements."""
        from .sym import SSeq

        self._may_raise()
        return SSeq(core.CUR.int("%s length" % self._label, 0).t, lambda i: self._new(), tag="wild")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self._new(name)

    def __setattr__(self, name, value):
        pass

    def __delattr__(self, name):
        pass

    def __call__(self, *args, **kwargs):
        if self._hook is not None:
            self._hook(self._name, args, kwargs)
        return self._any()

    def __getitem__(self, key):
        self._may_raise()
        return self._new(key if isinstance(key, str) else None)

    def __setitem__(self, key, value):
        self._may_raise()

    def __delitem__(self, key):
        self._may_raise()

    def __contains__(self, key):
        self._may_raise()
        return self._flag()

    def __iter__(self):
        core.CUR.note_bounded("iteration over an unknown collection: at most 2 elements")
        self._may_raise()
        for _ in range(core.CUR.choose("%s length" % self._label, [0, 1, 2])):
            yield self._new()

    def __enter__(self):
        return self._any()

    def __exit__(self, *_):
        self._may_raise()
        return False

    def __bool__(self):
        return self._flag()

    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _flag

    def _result(self, *_, **__):
        self._may_raise()
        return self._new()

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _result
    __floordiv__ = __rfloordiv__ = __mod__ = __rmod__ = __neg__ = __iadd__ = __isub__ = __imul__ = _result
    __or__ = __ror__ = __and__ = __rand__ = __invert__ = _result

    def __hash__(self):
        return id(self)

    def __str__(self):
        return "wild"

    __repr__ = __str__

    def __format__(self, spec):
        return "wild"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def find(args, kwargs):
    """A wild argument (also inside one level of containers)."""
    for a in list(args) + list(kwargs.values()):
        if type(a) is Wild:
            return a
        if isinstance(a, (list, tuple)):
            for b in a:
                if type(b) is Wild:
                    return b
        elif isinstance(a, dict):
            for b in a.values():
                if type(b) is Wild:
                    return b
    return None
