"""
Executors to hand to an Index in place of a process pool.

They keep the contract the library relies on (`submit`, `map`, `_max_workers`,
arguments and results cross a pickle boundary, as they do for processes) while
letting a monitor decide when tasks run, in which order they finish, and which
of them fail.
"""

import concurrent.futures as cf
import concurrent.futures.process
import multiprocessing as mp
import pickle
import random
import threading
import time

from .core import Injected

# What crossed the boundary, for the evidence.
STATS = {"tasks": 0}


def call_pickled(payload):
    fn, args, kwargs = pickle.loads(payload)
    try:
        return pickle.dumps(fn(*args, **kwargs))
    finally:
        # What a worker unpickled is closed when it is garbage collected.
        del fn, args, kwargs


class InlinePool(cf.Executor):
    """Runs each task, pickled, when it is submitted."""

    def __init__(self, workers=3):
        self._max_workers = workers
        self.count = 0
        self.closed = False

    def submit(self, fn, /, *args, **kwargs):
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = cf.Future()
        f.set_running_or_notify_cancel()
        self.count += 1
        STATS["tasks"] += 1
        try:
            f.set_result(pickle.loads(call_pickled(pickle.dumps((fn, args, kwargs)))))
        except BaseException as e:
            f.set_exception(e)
        return f

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.closed = True


class ChaosPool(cf.Executor):
    """
    Threads that take waiting tasks in random order, with small random delays
    before and after running them: completion order is shuffled and tasks
    overlap. Arguments are pickled when submitted, as with processes.
    """

    def __init__(self, workers=3, seed=0, delay=0.002):
        self._max_workers = workers
        self.rng = random.Random(seed)
        self.delay = delay
        self.lock = threading.Condition()
        self.waiting = []
        self.stop = False
        self.count = 0
        self.running = 0
        self.max_overlap = 0
        self.completion = []
        self.threads = [threading.Thread(target=self._run, daemon=True) for _ in range(workers)]
        for t in self.threads:
            t.start()

    def submit(self, fn, /, *args, **kwargs):
        f = cf.Future()
        payload = pickle.dumps((fn, args, kwargs))
        with self.lock:
            if self.stop:
                raise RuntimeError("cannot schedule new futures after shutdown")
            n = self.count
            self.count += 1
            STATS["tasks"] += 1
            self.waiting.append((n, f, payload))
            self.lock.notify()
        return f

    def _run(self):
        while True:
            with self.lock:
                while not self.waiting and not self.stop:
                    self.lock.wait()
                if not self.waiting:
                    return
                n, f, payload = self.waiting.pop(self.rng.randrange(len(self.waiting)))
                before = self.rng.random() * self.delay
                after = self.rng.random() * self.delay
                self.running += 1
                self.max_overlap = max(self.max_overlap, self.running)
            if not f.set_running_or_notify_cancel():
                with self.lock:
                    self.running -= 1
                continue
            time.sleep(before)
            try:
                result, error = pickle.loads(call_pickled(payload)), None
            except BaseException as e:
                result, error = None, e
            time.sleep(after)
            with self.lock:
                self.running -= 1
                self.completion.append(n)
            if error is None:
                f.set_result(result)
            else:
                f.set_exception(error)

    def shutdown(self, wait=True, *, cancel_futures=False):
        with self.lock:
            self.stop = True
            if cancel_futures:
                for _, f, _ in self.waiting:
                    f.cancel()
            self.lock.notify_all()
        if wait:
            for t in self.threads:
                t.join()


class FaultPool(InlinePool):
    """
    An inline pool whose k-th task (counted from `arm`) goes wrong:

      "task"    the task raises instead of running
      "after"   the task runs, then its result is lost
      "broken"  the pool is broken from then on, as when a worker is killed
      "submit"  the submission itself is interrupted
    """

    def __init__(self, workers=3):
        super().__init__(workers)
        self.at = None
        self.kind = None
        self.seen = 0
        self.fired = 0
        self.broken = False

    def arm(self, at, kind):
        self.at, self.kind, self.seen, self.fired, self.broken = at, kind, 0, 0, False

    def disarm(self):
        self.at = None
        self.broken = False

    def submit(self, fn, /, *args, **kwargs):
        if self.at is None:
            return super().submit(fn, *args, **kwargs)
        n = self.seen
        self.seen += 1
        if self.broken:
            raise cf.process.BrokenProcessPool("injected: the pool is broken")
        if n != self.at:
            return super().submit(fn, *args, **kwargs)
        self.fired += 1
        if self.kind == "submit":
            raise KeyboardInterrupt("injected")
        f = cf.Future()
        f.set_running_or_notify_cancel()
        if self.kind == "after":
            super().submit(fn, *args, **kwargs)
        if self.kind == "broken":
            self.broken = True
            f.set_exception(cf.process.BrokenProcessPool("injected: a worker died"))
        else:
            f.set_exception(Injected("injected task failure"))
        return f


class SwitchPool(cf.Executor):
    """Hands tasks to another pool, which can be replaced."""

    def __init__(self, inner):
        self.inner = inner

    @property
    def _max_workers(self):
        return self.inner._max_workers

    def submit(self, fn, /, *args, **kwargs):
        return self.inner.submit(fn, *args, **kwargs)

    def map(self, fn, *iterables, **kwargs):
        return self.inner.map(fn, *iterables, **kwargs)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.inner.shutdown(wait=wait, cancel_futures=cancel_futures)


def process_pool(workers=2):
    """The real thing: spawned processes."""
    return cf.ProcessPoolExecutor(workers, mp_context=mp.get_context("spawn"))


def random_pool(rng, chaos=0.3):
    """An inline or chaotic pool. The caller shuts it down."""
    workers = rng.choice([1, 2, 3, 4, 7, 7, 20])
    if rng.random() < chaos:
        return ChaosPool(workers, seed=rng.random())
    return InlinePool(workers)
