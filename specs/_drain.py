"""Loop contract: a queue is drained into a list, in order."""
from pyvc.loops import LoopSpec

from .c06_decode import find_lists, rebind


class Drain(LoopSpec):
    """After k rounds: the first k items are in the list, the rest is queued.

    g.drain: the queue, g.base: its items at the start (a symbolic list).
    """

    name = "drain"

    def match_while(self, key, n, locs):
        from pyvc import core

        return self.mine(locs, getattr(core.CUR.g, "drain", None))

    def match_for(self, seq, key, n):
        from pyvc import core

        tag = getattr(seq, "tag", None)
        return isinstance(tag, tuple) and tag[:1] == ("range",) and hasattr(core.CUR.g, "drain")

    @staticmethod
    def mine(locs, queue):
        return queue is not None and any(
            x is queue or any(y is queue for y in getattr(x, "__dict__", {}).values()) for x in locs.values())

    def inv(self, S, k):
        from pyvc.sym import And, SSeq, mk, zint

        g = S.g
        items = g.drain.items
        seq = getattr(self, "seq", None)
        ok = isinstance(items, SSeq) and items.elem is g.base.elem and not items.tail
        return [
            ("the rest is still queued, in order",
             And(mk(items.n == g.base.n - zint(k)), mk(items.start == zint(k)), mk(zint(k) <= g.base.n)) if ok else False),
            ("what was taken is in the list", True if seq is None else And(not seq.tail, mk(seq.n == zint(k)))),
        ]

    def havoc(self, S, k):
        from pyvc.core import Unsupported
        from pyvc.sym import SSeq, zint

        g = S.g
        lists = find_lists(S)
        if not lists or len({id(x[2]) for x in lists}) != 1:
            raise Unsupported("no single list collects what is drained")
        g.drain.items = SSeq(g.base.n - zint(k), g.base.elem, start=k)
        self.seq = SSeq(k, g.base.elem, tag="drained")
        return rebind(lists, self.seq)

    def step_end(self, S, k):
        c = S.ctx
        c.check("each round takes one item", len(self.seq.tail) == 1)
        if len(self.seq.tail) == 1:
            c.check("round k takes item k", c.same(self.seq.tail[0], S.g.base.base_at(k)))
        self.seq.tail.clear()
        self.seq.n = k + 1

    def modifies(self, S):
        return [S.g.drain, S.g.drain.items, self.seq, self.seq.tail, S.g]
