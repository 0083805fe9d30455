"""Everything nondeterministic goes through here.

Importing this module replaces clock, sleep, date, input, open, random state and
identity-based hashing, and then imports the real interpreter from /repo.
"""
import builtins
import datetime as _datetime
import io
import itertools
import logging
import os
import random
import sys
import time

REPO = os.environ.get("SIM_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)

# Real services, for the harness only.
real_time = time.time
real_perf = time.perf_counter
real_open = builtins.open
real_input = builtins.input
real_stdout = sys.stdout
real_stderr = sys.stderr


class SimError(BaseException):
    """The harness itself is broken (never a verdict)."""


class Hang(BaseException):
    """The code under test exceeded its budget of simulated operations."""


class Clock:
    """The only clock the interpreter reads."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.now = 1000.0
        self.reads = 0
        self.read_hook = None
        self.sleep_hook = None

    def read(self):
        self.reads += 1
        if self.read_hook is not None:
            self.read_hook()
        return self.now

    def sleep(self, seconds):
        if seconds < 0:
            raise ValueError("sleep length must be non-negative")
        if self.sleep_hook is None:
            raise SimError("sleep outside a simulated run loop")
        self.sleep_hook(seconds)


CLOCK = Clock()


class SimDateTime(_datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(CLOCK.read(), _datetime.timezone.utc).replace(tzinfo=None)

    @classmethod
    def utcnow(cls):
        return cls.now()


class Streams:
    """Console input, files and standard output as seen by the interpreter."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.input_hook = None
        self.open_hook = None


STREAMS = Streams()


def _sim_input(prompt=""):
    if STREAMS.input_hook is None:
        raise SimError("input outside a simulated console")
    return STREAMS.input_hook(prompt)


def _sim_open(file, *args, **kwargs):
    if STREAMS.open_hook is None:
        return real_open(file, *args, **kwargs)
    return STREAMS.open_hook(file, *args, **kwargs)


def _fsync(real):
    def fsync(fd):
        fd = fd if isinstance(fd, int) else fd.fileno()
        return None if fd >= 1000000 else real(fd)
    return fsync


def _install():
    time.time = CLOCK.read
    time.monotonic = CLOCK.read
    time.sleep = CLOCK.sleep
    _datetime.datetime = SimDateTime
    builtins.input = _sim_input
    builtins.open = _sim_open
    io.open = _sim_open
    os.fsync = _fsync(os.fsync)
    os.fdatasync = _fsync(os.fdatasync)
    # The prompt must not touch the real terminal.
    sys.modules.setdefault("readline", type(sys)("readline"))


# Modules that read clocks themselves must be loaded before the patches.
import colorama  # noqa: E402,F401
import json  # noqa: E402,F401
import queue  # noqa: E402,F401
import subprocess  # noqa: E402,F401
import tempfile  # noqa: E402,F401
import threading  # noqa: E402,F401

logging.raiseExceptions = False
_install()

import agentspeak  # noqa: E402
import agentspeak.lexer  # noqa: E402
import agentspeak.parser  # noqa: E402
import agentspeak.runtime  # noqa: E402
import agentspeak.stdlib  # noqa: E402
import agentspeak.ext_stdlib  # noqa: E402

logging.disable(logging.CRITICAL)

if not os.path.abspath(agentspeak.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise SimError("not the code under test: %s" % agentspeak.__file__)

_var_ids = itertools.count(1)


def _var_hash(self):
    try:
        return self._sim_hash
    except AttributeError:
        self._sim_hash = h = next(_var_ids) * 2654435761 % 1000003
        return h


try:
    agentspeak.Var.__hash__ = _var_hash
except (AttributeError, TypeError):
    pass


class SimOut(io.StringIO):
    """Standard output of the interpreter. Writes can be made to fail."""

    def __init__(self):
        super().__init__()
        self.fault = None

    def isatty(self):
        return False

    def write(self, s):
        if self.fault is not None:
            self.fault(s)
        return super().write(s)


def begin_run(seed):
    """Resets all simulated services at the start of each execution."""
    global _var_ids
    _var_ids = itertools.count(1)
    CLOCK.reset()
    STREAMS.reset()
    random.seed(seed)
    for f in (getattr(agentspeak.stdlib, "_print", None), getattr(agentspeak.ext_stdlib, "_csv", None)):
        for d in (getattr(f, "__defaults__", None) or ()):
            if isinstance(d, dict):
                d.clear()
            elif isinstance(d, list) and d == [d[0]] and isinstance(d[0], int):
                d[0] = 0


class Blind:
    """Names of variables, where they do not matter."""

    def __contains__(self, var):
        return True

    def __getitem__(self, var):
        return "?"


BLIND = Blind()


def annotations(annots, canonical, names):
    """Sets have no order: variables are named in the order of their context."""
    annots = list(annots)
    if len(annots) > 1:
        annots.sort(key=lambda t: repr(canonical(t, BLIND)))
    return tuple(sorted({canonical(t, names) for t in annots}, key=repr))


def canon(term, names=None):
    """Canonical, hashable form of a term of the real interpreter."""
    if names is None:
        names = {}
    if isinstance(term, bool):
        return ("b", term)
    if isinstance(term, (int, float)):
        return ("n", float(term))
    if isinstance(term, str):
        return ("s", term)
    if isinstance(term, agentspeak.Wildcard):
        return ("_",)
    if isinstance(term, agentspeak.Var):
        if term not in names:
            names[term] = len(names)
        return ("v", names[term])
    if isinstance(term, (tuple, list)):
        return ("t", tuple(canon(t, names) for t in term))
    if isinstance(term, agentspeak.Literal):
        return ("l", term.functor, tuple(canon(t, names) for t in term.args),
                annotations(term.annots, lambda t, names: canon(t, names), names))
    if isinstance(term, agentspeak.LinkedList):
        head = canon(term.head, names)
        tail = canon(term.tail, names)
        if tail[0] == "t":
            return ("t", (head,) + tail[1])
        return ("c", head, tail)
    if isinstance(term, agentspeak.UnaryExpr) or isinstance(term, agentspeak.BinaryExpr):
        return ("op", repr(type(term)))
    return ("?", type(term).__name__)
