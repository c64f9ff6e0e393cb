"""
Faults in and around SQLite connections of the code under test.

While `installed()` is active every connection made is a Connection of this
module: the statements of a chosen one can be counted, made to fail before or
after they run, or used as points at which the whole process dies.
"""

import contextlib
import itertools
import multiprocessing
import os
import shutil
import signal
import sqlite3
import threading
import time

from .core import Injected

CRASHED = 77  # exit code of a child that reached its crash point

real_connect = sqlite3.connect


class Plan:
    """What is to happen at which statement of which connection."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.conn = None
        self.at = None
        self.when = "before"
        self.error = None
        self.count = 0
        self.fired = None
        self.log = []

    def watch(self, conn):
        self.reset()
        self.conn = conn

    def arm(self, conn, at, when, error):
        self.reset()
        self.conn, self.at, self.when, self.error = conn, at, when, error

    def make(self):
        return self.error("injected")


PLAN = Plan()


def opens(sql):
    return str(sql).strip().lower().startswith(("savepoint", "begin", "attach"))


def closes(fired):
    """The statement that failed was to commit: what is left open is not judged."""
    return str(fired).strip().lower().startswith(("release", "commit"))


class Connection(sqlite3.Connection):
    hook = None  # called before each statement

    def _run(self, method, sql, args):
        if self.hook is not None:
            self.hook(sql)
        plan = PLAN
        if plan.conn is not self or plan.fired is not None:
            return method(sql, *args)
        n = plan.count
        plan.count += 1
        if plan.at is None:
            plan.log.append(" ".join(str(sql).split())[:120])
        hit = n == plan.at
        if hit and plan.when == "before":
            plan.fired = " ".join(str(sql).split())[:120]
            raise plan.make()
        out = method(sql, *args)
        # An interrupt between opening a transaction and the try statement that
        # guards it can't be held against anyone; nor one after the commit.
        if hit and not opens(sql) and not closes(sql):
            out.close()  # the traceback would keep the cursor open
            plan.fired = "after " + " ".join(str(sql).split())[:120]
            raise plan.make()
        return out

    def execute(self, sql, *args):
        return self._run(super().execute, sql, args)

    def executemany(self, sql, *args):
        return self._run(super().executemany, sql, args)

    def executescript(self, sql, *args):
        return self._run(super().executescript, sql, args)


def connect(*args, **kwargs):
    if "factory" not in kwargs and len(args) < 6:
        kwargs["factory"] = Connection
    return real_connect(*args, **kwargs)


@contextlib.contextmanager
def installed():
    sqlite3.connect = connect
    try:
        yield PLAN
    finally:
        sqlite3.connect = real_connect
        PLAN.reset()


def fault_errors(rng, when="before"):
    """
    What can go wrong before a statement runs, and after it did: then only an
    interrupt can arrive.
    """
    if when == "after":
        return KeyboardInterrupt
    return rng.choice([Injected, KeyboardInterrupt, sqlite3.OperationalError, MemoryError, SystemExit])


# -- statements interrupted half way, as by a full disk ---------------------------
class Interruption:
    """Abort the n-th batch of virtual machine steps of a connection (SQLITE_INTERRUPT)."""

    def __init__(self, conn, at, every=40):
        self.conn, self.at, self.count, self.fired = conn, at, 0, False
        conn.set_progress_handler(self.step, every)

    def step(self):
        n = self.count
        self.count += 1
        if n == self.at:
            self.fired = True
            return 1
        return 0

    def off(self):
        self.conn.set_progress_handler(None, 0)


# -- the manager of a run, without its process ------------------------------------
LOCKS = {}
KEYS = itertools.count(1)


class Lock:
    """A lock between the threads of this process; copies are the same lock."""

    def __init__(self, key):
        self.key = key
        self.lock = LOCKS.setdefault(self.key, threading.Lock())

    def __reduce__(self):
        return Lock, (self.key,)

    def acquire(self, *args, **kwargs):
        return self.lock.acquire(*args, **kwargs)

    def release(self):
        self.lock.release()

    def __enter__(self):
        self.lock.acquire()
        return self

    def __exit__(self, *exc):
        self.lock.release()
        return False


class QuietManager:
    def Lock(self):
        return Lock(next(KEYS))

    def shutdown(self):
        LOCKS.clear()


@contextlib.contextmanager
def quiet_manager():
    """mp.Manager() without a server process, for runs that are killed by the hundred."""
    real = multiprocessing.Manager
    multiprocessing.Manager = QuietManager
    try:
        yield
    finally:
        multiprocessing.Manager = real


# -- crashes --------------------------------------------------------------------
class CrashPoint:
    """Dies at the n-th statement, or batch of virtual machine steps, of a connection."""

    def __init__(self, at, steps=None):
        self.at, self.steps, self.count = at, steps, 0

    def attach(self, conn):
        if self.steps:
            conn.set_progress_handler(self.hit, self.steps)
        else:
            conn.set_trace_callback(self.hit)
        return self

    def hit(self, *_):
        n = self.count
        self.count += 1
        if n == self.at:
            os._exit(CRASHED)
        return 0

    @staticmethod
    def detach(conn):
        conn.set_trace_callback(None)
        conn.set_progress_handler(None, 0)


def in_child(fn, timeout=60):
    """Run fn in a forked child. Returns its exit code, or a negative signal number."""
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            fn()
            code = 0
        except BaseException:
            import sys
            import traceback

            traceback.print_exc(file=sys.stderr)
        finally:
            os._exit(code)
    deadline = time.time() + timeout
    while True:
        done, status = os.waitpid(pid, os.WNOHANG)
        if done:
            return os.waitstatus_to_exitcode(status)
        if time.time() > deadline:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            raise TimeoutError("a child did not finish")
        time.sleep(0.0005)


def copy_db(src, dst):
    """Copy a closed database with its log, if one was left."""
    for suffix in ("", "-wal", "-shm"):
        if os.path.exists(dst + suffix):
            os.remove(dst + suffix)
        if suffix != "-shm" and os.path.exists(src + suffix):
            shutil.copy(src + suffix, dst + suffix)


def points(rng, total, limit):
    """All injection points, or a spread sample with both ends."""
    if total <= limit:
        return list(range(total))
    keep = {0, 1, total - 1, total - 2}
    step = total / (limit - 4)
    keep |= {min(total - 1, int((j + rng.random()) * step)) for j in range(limit - 4)}
    return sorted(keep)
