"""Model of threading for one verified thread: lock depth, ghost joins."""
import threading as _real
from threading import *  # noqa: F401,F403

from . import core
from .core import Unsupported


class RLock:
    """Re-entrant lock with a ghost depth."""

    def __init__(self):
        self.depth = 0
        self.acquires = 0
        self.on_acquire = None
        self.on_release = None

    def acquire(self, blocking=True, timeout=-1):
        self.depth += 1
        self.acquires += 1
        if self.on_acquire is not None and self.depth == 1:
            self.on_acquire(self)
        return True

    def release(self):
        if self.depth <= 0:
            raise RuntimeError("cannot release un-acquired lock")
        if self.on_release is not None and self.depth == 1:
            self.on_release(self)
        self.depth -= 1

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *_):
        self.release()

    def locked(self):
        return self.depth > 0


class Lock(RLock):
    """Non-re-entrant lock: re-acquiring would deadlock."""

    def acquire(self, blocking=True, timeout=-1):
        if self.depth > 0:
            if not blocking or timeout != -1:
                return False
            if getattr(core.CUR.g, "self_wait", None) is not None:
                core.CUR.g.self_wait()
            raise Unsupported("self-deadlock on a Lock")
        return super().acquire(blocking, timeout)


class Semaphore:
    def __init__(self, value=1):
        if value < 0:
            raise ValueError("semaphore initial value must be >= 0")
        self.value = value
        self.releases = 0

    def acquire(self, blocking=True, timeout=None):
        if self.value > 0:
            self.value -= 1
            return True
        if not blocking or timeout is not None:
            return False
        raise Unsupported("blocking acquire of a semaphore at zero")

    def release(self, n=1):
        self.value += n
        self.releases += n

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *_):
        self.release()


class Event:
    def __init__(self):
        self.flag = False

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def is_set(self):
        return self.flag

    def wait(self, timeout=None):
        if not self.flag and timeout is None:
            raise Unsupported("blocking wait")
        return self.flag


class Thread:
    """A thread that is only recorded; joins are ghost events."""

    on_start = None
    on_join = None

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self.target = target
        self.args = args
        self.kwargs = {} if kwargs is None else kwargs
        self.name = name
        self.daemon = daemon
        self.started = 0
        self.joined = 0

    def start(self):
        if self.started:
            raise RuntimeError("threads can only be started once")
        self.started += 1
        hook = getattr(core.CUR, "thread_start", None)
        if hook is not None:
            hook(self)

    def run(self):
        if self.target is not None:
            self.target(*self.args, **self.kwargs)

    def join(self, timeout=None):
        if not self.started:
            raise RuntimeError("cannot join thread before it is started")
        self.joined += 1
        hook = getattr(core.CUR, "thread_join", None)
        if hook is not None:
            hook(self)

    def is_alive(self):
        return bool(self.started and not self.joined)
