"""
Whoever waits for background work with a time limit has to cope with the limit
passing. Limits the code under test sets on waiting are made very short, so
that they pass while a monitor holds work back for an instant: giving up shows
without anything having to be slow. Unlimited waits, and the limits that
libraries set for themselves, stay as they are.
"""

import concurrent.futures as cf
import functools
import sys
import threading

FACTOR = 1 / 2000
STATS = {"shortened": 0}


def limit(timeout):
    """The limit to use, for a call made two frames up."""
    if timeout is not None and sys._getframe(2).f_globals.get("__name__", "").split(".")[0] == "hyperreal":
        STATS["shortened"] += 1
        return timeout * FACTOR
    return timeout


def install():
    def function(module, name, position):
        real = getattr(module, name)

        @functools.wraps(real)
        def patched(*args, **kwargs):
            if len(args) > position:
                args = (*args[:position], limit(args[position]), *args[position + 1 :])
            elif "timeout" in kwargs:
                kwargs["timeout"] = limit(kwargs["timeout"])
            return real(*args, **kwargs)

        setattr(module, name, patched)

    import concurrent.futures._base as base

    for module in (cf, base):
        function(module, "wait", 1)
        function(module, "as_completed", 1)
    function(cf.Future, "result", 1)
    function(cf.Future, "exception", 1)
    function(cf.Executor, "map", 10**6)
    function(cf.ProcessPoolExecutor, "map", 10**6)
    function(threading.Event, "wait", 1)
    function(threading.Condition, "wait", 1)
    function(threading.Thread, "join", 1)
