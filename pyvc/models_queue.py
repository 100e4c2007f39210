"""Model of queue: FIFO, bounded by maxsize (sequential semantics)."""
from queue import Empty, Full  # noqa: F401

from . import core
from .core import Unsupported
from .sym import SSeq, has_sym


class Queue:
    """A FIFO queue; ``items`` may be a native list or a symbolic list."""

    __vc_model_class__ = True

    def __init__(self, maxsize=0):
        self.maxsize = maxsize
        self.items = []
        self.on_wait = None

    def _wait(self):
        """About to wait, unless told not to."""
        if self.on_wait is not None:
            self.on_wait()

    def _len(self):
        return self.items.length() if isinstance(self.items, SSeq) else len(self.items)

    @property
    def queue(self):
        return self.items

    def qsize(self):
        return self._len()

    def empty(self):
        return self._len() == 0

    def full(self):
        if self.maxsize <= 0:
            return False
        return self._len() >= self.maxsize

    def put(self, item, block=True, timeout=None):
        if block and timeout is None:
            self._wait()
        if self.full():
            if not block or timeout is not None:
                raise Full
            raise Unsupported("blocking put on a full queue")
        self.items.append(item)

    def put_nowait(self, item):
        return self.put(item, block=False)

    def get(self, block=True, timeout=None):
        if block and timeout is None:
            self._wait()
        if self.empty():
            if not block or timeout is not None:
                raise Empty
            raise Unsupported("blocking get on an empty queue")
        return self.items.pop(0)

    def get_nowait(self):
        return self.get(block=False)

    def task_done(self):
        return None

    def join(self):
        return None


class LifoQueue(Queue):
    def get(self, block=True, timeout=None):
        raise Unsupported("LifoQueue")


class PriorityQueue(Queue):
    def get(self, block=True, timeout=None):
        raise Unsupported("PriorityQueue")


class SimpleQueue(Queue):
    def __init__(self):
        super().__init__(0)
