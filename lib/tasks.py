"""Task callables for the scheduler checks (imported in worker processes too, so keep it light)."""
import os
import sys
import threading
import time

LOCK = threading.Lock()
RUNNING = [0, 0]          # now, most at the same time
ENV = {}


class Boom(Exception):
    pass


class Unpicklable(object):
    def __reduce__(self):
        raise Boom("not picklable")


def body(name, data, extra):
    """data: dict with value, ms, fault, log (path)."""
    with LOCK:
        RUNNING[0] += 1
        RUNNING[1] = max(RUNNING)
    t0 = time.monotonic()
    try:
        if data.get('log'):
            fd = os.open(data['log'], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            os.write(fd, ("%s\n" % data['key']).encode())
            os.close(fd)
        if data['ms'] > 0:
            time.sleep(data['ms'] / 1000.)
        if data['value'] % 5 == 0:
            print("printed by a task")
        f = data.get('fault')
        if f == 'raise':
            raise Boom("task fault")
        if f == 'exit':
            sys.exit(0)
        if f == 'die':
            os._exit(1)
        if f == 'unpicklable':
            return Unpicklable()
        return (name, data['value'], extra, os.getpid(), t0, time.monotonic())
    finally:
        with LOCK:
            RUNNING[0] -= 1


def make(TaskCallable):
    """The classes need the base class of the library; kept importable by name."""
    class Stateful(TaskCallable):
        """Changes itself when called; needs to be forked."""

        def __init__(self, name):
            self.name = name
            self.calls = 0
            self.forked = 0
            self.env = 0

        def setup_environment(self):
            ENV[self.name] = ENV.get(self.name, 0) + 1

        def fork(self):
            c = Stateful(self.name)
            c.forked = self.forked + 1
            return c

        def __call__(self, data):
            self.calls += 1
            return body(self.name, data, (self.calls, self.forked, ENV.get(self.name, 0)))

    class Plain(TaskCallable):
        def __init__(self, name):
            self.name = name

        def __call__(self, data):
            return body(self.name, data, None)

    class BadFork(Plain):
        def fork(self):
            raise Boom("fork fault")

    class BadPickle(Plain):
        def __getstate__(self):
            raise Boom("pickle fault")

    for c in (Stateful, Plain, BadFork, BadPickle):
        c.__module__ = __name__
        c.__qualname__ = c.__name__
        globals()[c.__name__] = c


def func_0(data):
    return body('func_0', data, None)


def func_1(data):
    return body('func_1', data, None)


class Callme(object):
    """Not a TaskCallable, no function."""

    def __init__(self, name):
        self.name = name

    def __call__(self, data):
        return body(self.name, data, None)


def _setup():
    from mdp.parallel import TaskCallable
    make(TaskCallable)


_setup()


def echo(data):
    return data
