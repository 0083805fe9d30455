"""Loading agents from a simulated file system, with damage and read errors.

Every case is executed twice: once with all its loads, some of which meet a
fault, and once as if the failed loads had not been attempted and the others had
been given as one undamaged text. Everything else has to be the same.
"""
import collections
import errno
import gc
import hashlib
import io
import itertools
import os
import random
import re

from . import gen as gen_mod
from . import ir
from . import seams
from . import sim as sim_mod
from .seams import CLOCK, STREAMS, agentspeak
from .sim import Inconclusive, Violation, WATCH
from .world import Broken, POPULATION, RGT, RTRIG, World, to_real

PROFILE = dict(
    agents=(1, 3), goals=(2, 3), beliefs=(2, 3), tests=(0, 1), rules=(0, 2), handlers=(0, 3), body=(1, 3), nest=2,
    transport=0.0, values=("num", "atom", "str", "list", "struct", "frac", "bool"), labels=0.2, annots=0.15,
    stmt=dict(spawn=1.5, send=2, bcast=0.7, sub=3, later=2, add=3, wait=0.6, loop_for=1, loop_while=0.4, how=0.4,
              conv=0.5, fail=0.2),
    query=dict(cmp=0.05, err=0), op=dict(create=0, kill=0.7, host=2, run=5, step=6, jump=1.5), nops=(8, 30), burst=0.3)

STRINGS = ("äöü€", "a // b", "c # d", "/* e */", "x\\ty", "q\\\"r", "𝛼β", "x . y", "(", "[{", "it's", "a\\\\")
COMMENTS = ("// ä note (with \" a quote", "# another € one.", "/* block \" . ( */", "/* two\n   lines ü */", "//", "// foo(1).",
            "# { include(\"none.asl\") }", "/* +!g <- 5. */")

# Text that is no program, wherever it stands between two clauses.
INVALID = ("foo(.", "foo(1", "bar baz.", "+!g(1) <- .", "1.", ":- foo(1).", "foo(1) :- .", "!X.", "+!g : <- true.", "}", ")",
           ",", ";", "]", "foo(1, ).", "foo(1)[.", "+!g <- .p(1) .p(2).", "!.", "+.", "@.", "foo(1)) .", "{ end }",
           "{ foo }", "{ include }", "{ include(x) }", "{ include(\"x.asl\" }", "{ }", "+!g <- if true { .p(1) }.",
           "foo(1) :- bar(2) &.", "foo(2) :- bar(2) |.", "foo(\"a).", "+!g <- !.", "+!g <- foo(1) <- true.", "foo = 1.",
           "<- true.", "+!g :- true.", "$", "foo($).", "+!g : 3 <- true.", "foo(1) :- X + 1.", "+!g : \"s\" <- true.",
           "+!g <- 5.", "+!g <- X * 2.", "+!g <- if (3) { true }.", "+!g : not 3 <- true.", "foo(1) :- true & 7.",
           "foo(1) :- true & (true.", "!g(1", "foo(1 + ).", "+!g <- for (true) { .p(1).", "+!g <- while true.")
EXPRESSIONS = ("foo(1 + X).", "foo(2 * Y, 1) :- true.", "+!g(X + 1) <- true.", "foo(not a).")

OPEN = dict(gone=errno.ENOENT, perm=errno.EACCES, io=errno.EIO, isdir=errno.EISDIR, files=errno.EMFILE,
            loop=errno.ELOOP, stale=errno.ESTALE)
READ = (errno.EIO, errno.ESTALE, errno.EISDIR, errno.ENOMEM)

CLOSERS = "()[]{}"


# -- the simulated file system


class Disk:
    def __init__(self, case):
        self.files = {}
        self.open_error = {}
        self.read_error = None      # path, number of the read, what
        self.reads = collections.Counter()
        self.fired = None
        self.opened = 0
        self.is_open = 0
        self.chunks = case["chunks"]

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        name = os.fspath(file) if isinstance(file, (str, os.PathLike)) else None
        if name is None or not name.endswith(".asl"):
            return seams.real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if "\0" in name:
            raise ValueError("embedded null byte")
        path = os.path.normpath(name)
        self.opened += 1
        if self.opened > 300:
            raise seams.Hang()
        err = self.open_error.get(path)
        if err is None and path not in self.files:
            err = errno.ENOENT
        if err is not None:
            self.fired = "open"
            raise OSError(err, os.strerror(err), name)
        raw = Raw(self, path, name)
        if buffering == 0:
            return raw
        buf = io.BufferedReader(raw, 8192 if buffering in (-1, 1) else buffering)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)


class Raw(io.RawIOBase):
    def __init__(self, disk, path, name):
        self.disk = disk
        self.path = path
        self.name = name
        self.data = disk.files[path]
        self.pos = 0
        self.mode = "rb"
        disk.is_open += 1

    def close(self):
        if not self.closed:
            self.disk.is_open -= 1
            super().close()

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, offset, whence=0):
        self.pos = max(0, offset + (0, self.pos, len(self.data))[whence])
        return self.pos

    def tell(self):
        return self.pos

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def readinto(self, b):
        d = self.disk
        d.reads[self.path] += 1
        if d.read_error is not None and d.read_error[:2] == (self.path, d.reads[self.path]):
            what = d.read_error[2]
            d.fired = "read"
            if what == "interrupt":
                raise KeyboardInterrupt
            if what == "memory":
                raise MemoryError
            raise OSError(what, os.strerror(what))
        # Short reads.
        n = min(len(b), len(self.data) - self.pos, d.chunks[d.reads[self.path] % len(d.chunks)])
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


# -- sources: files of pieces


def piece_text(p):
    return p[1]


def include_text(case, path, p):
    """The include directive of a file, in one of several spellings."""
    _, target, style, _ = p
    rel = os.path.relpath(target, os.path.dirname(path) or ".")
    if style == 1:
        rel = "./" + rel
    elif style == 2:
        here = os.path.basename(os.path.dirname(path))
        if here:
            rel = "../%s/%s" % (here, rel)
    return ('{ include("%s") }', '{include("%s")}', '{ include ( "%s" ) }', '{ include("%s")\n}')[(style + len(path)) % 4] % rel


def text_of(case, path, p):
    k = p[0]
    if k == "include":
        return include_text(case, path, p)
    if k == "begin":
        return "{ begin ns%d(a) }" % p[1]
    if k == "end":
        return "{ end }"
    return p[1]


def render(case, path, pieces):
    """Text of a file and the pieces with their positions (in characters)."""
    out = []
    pos = 0
    spans = []
    for p in pieces:
        t = text_of(case, path, p)
        spans.append((pos, pos + len(t), p))
        t += p[-1]
        out.append(t)
        pos += len(t)
    return "".join(out), spans


def reach(case, k):
    """Files of a source in order of inclusion, with the chain to each."""
    out = {}

    def walk(path, chain):
        if path in chain:
            return
        out.setdefault(path, chain + (path,))
        for p in case["files"].get(path, ()):
            if p[0] == "include":
                walk(p[1], chain + (path,))
    walk(case["sources"][k]["root"], ())
    return out


def flatten(case, path, override=()):
    out = []

    def walk(path, depth):
        if depth > 12:
            raise Inconclusive("include depth")
        for p in dict(override).get(path, case["files"].get(path, ())):
            if p[0] == "include":
                walk(p[1], depth + 1)
            elif p[0] == "clause":
                out.append(p[1])
    walk(path, 0)
    return "\n".join(out) + "\n"


def code_positions(text):
    """Positions of a clause outside strings."""
    out = []
    i = 0
    while i < len(text):
        if text[i] == '"':
            i += 1
            while i < len(text) and text[i] != '"':
                i += 2 if text[i] == "\\" else 1
            i += 1
            continue
        out.append(i)
        i += 1
    return out


class Plan:
    """One load: what is on the disk, and what has to come of it."""

    def __init__(self, case, k, damage):
        self.case = case
        self.k = k
        self.root = case["sources"][k]["root"]
        self.as_file = case["sources"][k]["via"] == "file"
        self.damage = damage
        self.kind = damage[0] if damage else "none"
        self.expect = "ok"           # ok, fail, fired (fails if the fault was met), either, any
        self.flat = None
        self.open_error = {}
        self.read_error = None
        self.ctx = None
        self.raw = None              # path, bytes
        self.files = reach(case, k)
        self.override = {}
        if damage:
            self.apply(*damage)
        self.texts = {}
        for path in self.files:
            pieces = self.override.get(path, case["files"].get(path))
            if pieces is None:
                continue
            text, _ = render(case, path, pieces)
            if case["crlf"] and not (path == self.root and not self.as_file):
                text = text.replace("\n", "\r\n")
            self.texts[path] = text.encode("utf-8")
        if self.raw is not None:
            self.texts[self.raw[0]] = self.raw[1]
        if self.flat is None and self.expect in ("ok", "either", "fired"):
            self.flat = flatten(case, self.root, self.override)

    def pick(self, i, xs):
        return xs[i % len(xs)]

    def raw_change(self, path, data):
        self.raw = (path, data)

    def apply(self, kind, i, j, *rest):
        """i chooses the file and j the place, both modulo what there is."""
        case = self.case
        paths = [p for p in self.files if p in case["files"]]
        path = self.pick(i, paths)
        pieces = list(case["files"][path])
        text, spans = render(case, path, pieces)
        included = [p for p in paths if p != self.root]
        if kind in OPEN:
            if not included:
                return
            self.open_error[self.pick(i, included)] = OPEN[kind]
            self.expect = "fail"
        elif kind == "read":
            if path == self.root and not self.as_file:
                if not included:
                    return
                path = self.pick(i, included)
            self.read_error = (path, 1 + j % 9, rest[0])
            self.expect = "fired"
        elif kind == "ctx":
            self.ctx = 1 + j % 4
            self.expect = "fired"
        elif kind == "trunc":
            self.truncate(path, pieces, text, spans, j % (len(text) + 1))
        elif kind == "utf8":
            if path == self.root and not self.as_file:
                return
            data = text.encode("utf-8")
            at = j % (len(data) + 1)
            self.raw_change(path, data[:at] + self.pick(rest[0], (b"\xff", b"\xfe\xff", b"\xc0", b"\xf5")) + data[at:])
            self.expect = "fail"
        elif kind == "bytes":
            data = bytearray(text.encode("utf-8"))
            at = j % (len(data) + 1)
            how, value = rest
            if how == 0:
                data[at:at + 1] = bytes([value])
            elif how == 1:
                del data[at:at + 1 + value % 9]
            elif how == 2:
                data[at:at] = bytes([value])
            elif how == 3:
                data[at:at] = data[at:at + 20]
            else:
                data[at:at + 1 + value % 9] = b"\0" * (1 + value % 9)
            self.raw_change(path, bytes(data))
            self.expect = "any"
        elif kind == "snippet":
            s, times = rest
            n = j % (len(pieces) + 1)
            bad = self.pick(s, INVALID + EXPRESSIONS)
            self.override[path] = pieces[:n] + [["clause", bad, "\n"]] * times + pieces[n:]
            self.expect = "fail"
        elif kind in ("include", "cycle"):
            spots = [n for n, p in enumerate(pieces) if p[0] == "include"]
            if kind == "cycle":
                n = j % (len(pieces) + 1)
                target = self.pick(rest[0], self.files[path])
                new = ["include", target, rest[0] % 3, "\n"]
                self.override[path] = pieces[:n] + [new] + pieces[n:]
            else:
                if not spots:
                    return
                n = self.pick(j, spots)
                good = include_text(case, path, pieces[n])
                bad = self.pick(rest[0], (
                    good.replace(".asl", "_none.asl"), good.replace('"', ""), good.replace(")", ""), good.replace("}", ""),
                    good.replace("(", ""), good.replace("include", "Include"), good.replace('"', "'"),
                    good.replace("{", ""), good.replace("include", "includes"), good.replace(")", ",)")))
                self.override[path] = pieces[:n] + [["clause", bad, "\n"]] + pieces[n + 1:]
            self.expect = "fail"
        elif kind in ("begin", "end"):
            spots = [n for n, p in enumerate(pieces) if p[0] == kind]
            if not spots:
                return
            n = self.pick(j, spots)
            self.override[path] = pieces[:n] + pieces[n + 1:]
            self.expect = "fail"
        else:
            self.clause(kind, path, pieces, j, rest)

    def clause(self, kind, path, pieces, j, rest):
        """Damage inside of one clause."""
        spots = [n for n, p in enumerate(pieces) if p[0] == "clause"]
        if not spots:
            return
        n = self.pick(rest[0], spots)
        text = pieces[n][1]
        code = code_positions(text)
        new = None
        if kind == "bracket-":
            at = [i for i in code if text[i] in CLOSERS]
            if at:
                i = self.pick(j, at)
                new = text[:i] + text[i + 1:]
        elif kind == "bracket+":
            i = self.pick(j, code)
            new = text[:i] + self.pick(rest[1], CLOSERS) + text[i:]
        elif kind == "bracket=":
            at = [i for i in code if text[i] in CLOSERS]
            if at:
                i = self.pick(j, at)
                c = self.pick(rest[1], CLOSERS)
                if c != text[i]:
                    new = text[:i] + c + text[i + 1:]
        elif kind == "char":
            i = self.pick(j, code)
            new = text[:i] + self.pick(rest[1], "$^`%\0§€\x7f?'"[:8]) + text[i:]
        elif kind == "dot":
            after = next((p for p in pieces[n + 1:] if p[0] != "comment"), None)
            if not text[:-1].rstrip().endswith("}") and not (
                    after is not None and after[0] == "clause" and after[1][0] in "+-" and after[1][1] not in "!?"):
                new = text[:-1].rstrip()
        elif kind == "quote":
            at = [i for i, c in enumerate(text) if c == '"' and (i == 0 or text[i - 1] != "\\")]
            if at and not any(c in text for c in ("//", "#", "/*", "\\\\")):
                i = self.pick(j, at)
                new = text[:i] + text[i + 1:]
        if new is None:
            return
        self.override[path] = pieces[:n] + [["clause", new, pieces[n][-1] if kind != "dot" else " \n"]] + pieces[n + 1:]
        self.expect = "fail"

    def truncate(self, path, pieces, text, spans, at):
        self.raw_change(path, text[:at].encode("utf-8"))
        depth = 0
        kept = []
        for start, end, p in spans:
            if end <= at:
                kept.append(p)
                depth += (p[0] == "begin") - (p[0] == "end")
                continue
            if start < at:
                if p[0] == "comment":
                    if p[1].startswith("/*") or at == start + 1:
                        self.expect = "either"
                elif text[:at].rstrip().endswith("."):
                    # What is left may be complete.
                    self.expect = "any"
                    return
                else:
                    self.expect = "fail"
                    return
            break
        if depth:
            self.expect = "fail"
            return
        self.override[path] = kept


class Counter:
    def __init__(self):
        self.n = 0

    def __next__(self):
        self.n += 1
        return self.n

    def __iter__(self):
        return self


RUNTIME = (agentspeak.AslError, TypeError)   # contexts of initial events can raise them
DOCUMENTED = (agentspeak.AggregatedError, agentspeak.AslError, OSError)


class LoadWorld(World):
    """A world whose agents come from the simulated disk."""
    run = None

    def make_actions(self):
        acts = super().make_actions()
        world = self

        @acts.add(".ctx")
        def _ctx(agent, term, intention):
            world.emit(".ctx", agent.name)
            world.ctx_calls += 1
            if world.ctx_calls == world.ctx_fail:
                world.ctx_fired = True
                raise agentspeak.AslError("injected")
            yield
        return acts

    ctx_calls = 0
    ctx_fail = None
    ctx_fired = False

    def build(self, k, n=None):
        """Called by .spawn."""
        return self.run.load(k, n)

    def build_from(self, source, n, name=None):
        before = dict(self.env.agents)
        kwargs = {} if name is None else {"name": name}
        if n is None:
            agents = [self.env.build_agent(source, self.actions, agent_cls=self.agent_cls, **kwargs)]
        else:
            agents = self.env.build_agents(source, n, self.actions, agent_cls=self.agent_cls, **kwargs)
        now = self.env.agents
        for x, agent in before.items():
            if now.get(x) is not agent:
                raise Broken("name", "agent %s was replaced or removed" % x)
        if len(agents) != (1 if n is None else n) or len(now) != len(before) + len(agents) or \
                any(now.get(a.name) is not a for a in agents):
            raise Broken("name", "load yields %d agents, agents are now %s" % (len(agents), list(now)))
        for a in agents:
            self.objs[a.name] = a
            self.order.append(a.name)
        return [a.name for a in agents]


from .world import SimAgent  # noqa: E402

LoadWorld.agent_cls = SimAgent


IDENTITY = re.compile(r"0x[0-9a-f]+")
VARIABLE = re.compile(r"_[0-9a-f]+_[0-9a-f]{8,}")


BRACKETS = re.compile(r"([\w)]?)\[([^][]*)\]")


def unordered(text):
    """Annotations have no order."""
    def inner(m):
        items = m.group(2).split(", ")
        return "%s\u27e6%s\u27e7" % (m.group(1), ", ".join(sorted(items) if m.group(1) else items))
    old = None
    while old != text:
        old, text = text, BRACKETS.sub(inner, text)
    return text


def dump(world, agent):
    """What an agent consists of."""
    def show(*xs):
        # Identities of variables and objects do not matter.
        return unordered(VARIABLE.sub("", IDENTITY.sub("", " ".join(map(str, xs)))))

    try:
        return (sorted(map(repr, world.bb(agent))),
                [show(p.trigger, p.goal_type, p.head, p.context) for g in agent.plans.values() for p in g],
                [show(r.head, r.query) for g in agent.rules.values() for r in g],
                len(agent.intentions))
    except (AttributeError, TypeError):
        return sorted(map(repr, world.bb(agent)))


class Run:
    """One execution of a case, with faults or (given the results) without."""

    def __init__(self, case, results=None, trace=None):
        self.case = case
        self.trace = trace
        self.faulty = results is None
        self.results = [] if results is None else results
        seams.begin_run(case["seed"])
        seams._var_ids = self.ids = Counter()
        self.disk = Disk(case)
        STREAMS.open_hook = self.disk.open
        self.world = LoadWorld()
        self.world.run = self
        self.world.case = case
        self.stats = collections.Counter()
        self.history = []
        self.loads = 0
        self.sig_hash = hashlib.blake2b(digest_size=12)
        self.visible = 0
        self.time_covered = 0.0
        self.dumps = {}

    # -- loads

    def load(self, k, n, host=False):
        k %= len(self.case["sources"])
        i = self.loads
        self.loads += 1
        w = self.world
        mark = len(w.log)
        if not self.faulty:
            expected, flat = self.results[i] if i < len(self.results) else (None, None)
            if flat is None:
                raise agentspeak.AslError("load fails")
            try:
                names = w.build_from(agentspeak.StringSource(self.case["sources"][k]["root"], flat), n)
            except DOCUMENTED + (TypeError,) as err:
                if type(err) is not expected:
                    raise Violation("loads", "load %d fails only if all text is in one string: %s" % (i, err))
                raise agentspeak.AslError("load fails")
            if expected is not None:
                raise Violation("refused", "load %d fails with %s, though the text is fine" % (i, expected))
            self.dumps[i] = [dump(w, w.objs[x]) for x in names]
            return names
        damages = self.case["damages"]
        damage = damages[i] if i < len(damages) else None
        if damage and damage[0] == "read" and damage[3] == "interrupt" and not host:
            damage = None
        plan = Plan(self.case, k, damage)
        self.stats["loads"] += 1
        ids = self.ids.n
        before = dict(w.env.agents)
        bbs = {x: w.bb(a) for x, a in before.items()}
        self.prepare(plan)
        names = error = None
        opened = None
        try:
            if plan.as_file:
                opened = source = self.disk.open(plan.root)
            else:
                source = agentspeak.StringSource(plan.root, plan.texts[plan.root].decode("utf-8", "replace"))
            names = w.build_from(source, n)
        except (Broken, seams.SimError, seams.Hang, Inconclusive):
            raise
        except BaseException as err:
            error = type(err), str(err)[:200]
            documented = isinstance(err, DOCUMENTED)
            err = None
        finally:
            if opened is not None:
                opened.close()
        fired = self.disk.fired or w.ctx_fired
        w.ctx_fail = None
        if self.disk.is_open:
            gc.collect()
            if self.disk.is_open:
                raise Violation("open-files", "load %d (%s): %d included files stay open" % (i, damage, self.disk.is_open))
        if damage and damage[0] == "snippet":
            damage = damage[:3] + [(INVALID + EXPRESSIONS)[damage[3] % len(INVALID + EXPRESSIONS)]] + damage[4:]
        what = "load %d of source %d (%s)" % (i, k, damage)
        if damage and plan.expect != "ok":
            self.stats["fault:%s" % plan.kind] += 1
        if fired:
            self.stats["fault:met"] += 1
        # How it has to end.
        must = plan.expect
        if must == "fired":
            must = "fail" if fired else "ok"
        if fired and must == "ok":
            raise Violation("harness", "%s: unexpected fault" % what)
        if must == "fail" and error is None:
            raise Violation("partial", "%s: succeeds, though the source is damaged" % what)
        if error is not None and error[0] is RecursionError and plan.flat is not None:
            self.recursive(plan)
        if must == "ok" and error is not None and (error[0] not in RUNTIME or fired):
            raise Violation("refused", "%s: fails with %s" % (what, error))
        if error is not None:
            self.stats["loads failed"] += 1
            injected = plan.read_error[2] if plan.read_error else None
            if not (documented or plan.ctx or (error[0] in RUNTIME and must in ("ok", "any", "either")) or (injected == "interrupt" and error[0] is KeyboardInterrupt) or
                    (injected == "memory" and error[0] is MemoryError) or
                    (plan.raw is not None and error[0] is UnicodeDecodeError)):
                raise Violation("raw-exception", "%s: fails with %s" % (what, error))
            if fired and injected == "interrupt" and error[0] is not KeyboardInterrupt:
                raise Violation("raw-exception", "%s: interrupt becomes %s" % (what, error))
            events = [e for e in w.log[mark:] if e[0] != "new"]
            if events and not (plan.ctx or (must in ("ok", "any", "either") and error[0] in RUNTIME)):
                raise Violation("effects", "%s: failed load had effects: %s" % (what, events))
            now = w.env.agents
            if list(now) != list(before) or any(now[x] is not before[x] for x in before):
                raise Violation("environment", "%s: agents were %s and are %s after a failed load" % (
                    what, list(before), list(now)))
        if bbs != {x: w.bb(a) for x, a in before.items()}:
            raise Violation("environment", "%s: beliefs of other agents change" % what)
        if must == "any":
            self.compare(plan, n, what, names)
        if error is not None and must == "ok":
            # The text is fine, but the agent cannot start. So it is in the other execution.
            self.stats["loads failed at run time"] += 1
            self.results.append((error[0], plan.flat))
            raise agentspeak.AslError("load fails")
        if error is not None or must == "any":
            # As if it had never been attempted.
            if names:
                for x in names:
                    w.kill(x)
            del w.log[mark:]
            self.ids.n = ids
            self.results.append((None, None))
            raise agentspeak.AslError("load fails")
        self.stats["loads succeeded"] += 1
        self.dumps[i] = [dump(w, w.objs[x]) for x in names]
        self.results.append((None, plan.flat))
        return names

    def prepare(self, plan):
        d = self.disk
        d.files = dict(plan.texts)
        d.open_error = plan.open_error
        d.read_error = plan.read_error
        d.reads.clear()
        d.fired = None
        d.opened = 0
        self.world.ctx_calls = 0
        self.world.ctx_fail = plan.ctx
        self.world.ctx_fired = False

    def recursive(self, plan):
        """There is no occurs check: programs can build cyclic terms."""
        w = LoadWorld()
        w.case = self.case
        try:
            w.env.build_agent(agentspeak.StringSource(plan.root, plan.flat), w.actions)
        except RecursionError:
            raise Inconclusive("cyclic term")
        except Exception:
            pass

    def compare(self, plan, n, what, names):
        """The same text given as a string: the same outcome."""
        if len(plan.files) > 1 or plan.raw is None:
            return
        w2 = LoadWorld()
        w2.case = self.case
        try:
            text = plan.raw[1].decode("utf-8").replace("\r\n", "\n").replace("\r", "\n")
            if "include" in text:
                return
            agent = w2.env.build_agent(agentspeak.StringSource(plan.root, text), w2.actions)
        except UnicodeDecodeError:
            return
        except DOCUMENTED + (TypeError,):
            if names is not None:
                raise Violation("differs", "%s: loads, but not if given as a string" % what)
            return
        if names is None:
            raise Violation("differs", "%s: fails, but not if given as a string" % what)
        a, b = dump(w2, agent), dump(self.world, self.world.objs[names[0]])
        if a != b:
            raise Violation("differs", "%s: yields %s, as a string %s" % (what, b, a))
        self.stats["damaged but loadable"] += 1

    # -- other operations

    def note(self, op, ret=None):
        w = self.world
        log = w.take_log()
        for e in log:
            if e[0] == "raw" and self.faulty:
                raise Violation("raw-exception", "%s: undocumented exception %s" % (op, e))
        bbs = {x: w.bb(w.objs[x]) for x in w.order}
        self.history.append((op, log, ret, bbs))
        self.stats["ops"] += 1
        if log:
            self.visible += len(log)
            self.sig_hash.update(repr((op, log)).encode("utf-8", "surrogatepass"))
        if self.trace is not None:
            self.trace.append((op, log, ret, CLOCK.now))

    def live(self, i):
        order = self.world.order
        return order[i % len(order)] if order else None

    def step(self, name):
        with WATCH:
            ret = self.world.step(name)
        self.note(["step", name], ret)
        return ret

    def execute(self, op):
        w = self.world
        k = op[0]
        if k == "load":
            if len(w.order) > 8:
                return
            with WATCH:
                try:
                    self.load(op[1], op[2], True)
                except agentspeak.AslError:
                    pass
            self.note(op)
        elif k == "step":
            name = self.live(op[1])
            if name is not None:
                self.step(name)
        elif k == "run":
            name = self.live(op[1])
            for _ in range(op[2]):
                if name not in w.objs or not self.step(name):
                    break
        elif k == "adv":
            self.advance(op[1] / 1000.0)
        elif k in ("jump", "jumpeq"):
            d = [w.objs[n].shortest_deadline() for n in w.order]
            d = [x for x in d if x is not None]
            if d:
                self.advance(max(0.0, min(d) - CLOCK.now + 0.125))
        elif k == "host":
            name = self.live(op[1])
            if name is not None:
                with WATCH:
                    w.host(name, op[2], op[3], sim_mod.model.tup(op[4]))
                self.note(op)
        elif k == "kill":
            name = self.live(op[1])
            if name is not None and len(w.order) > 1:
                w.kill(name)
                self.note(["kill", name])

    def advance(self, x):
        CLOCK.now += x
        self.time_covered += max(0.0, x)

    def execute_all(self):
        for op in self.case["ops"]:
            self.execute(op)
        w = self.world
        for _ in range(60):
            busy = False
            for name in list(w.order):
                if name in w.objs and self.step(name) is not False:
                    busy = True
            if busy:
                continue
            d = [w.objs[n].shortest_deadline() for n in w.order]
            d = [x for x in d if x is not None]
            if not d:
                break
            self.advance(max(0.0, min(d) - CLOCK.now + 0.125))


class LoadSim:
    def __init__(self, case, trace=None):
        self.case = case
        self.first = Run(case, None, trace)
        self.stats = self.first.stats
        self.time_covered = 0.0

    @property
    def visible(self):
        return self.first.visible

    @property
    def sig(self):
        return self.first.sig_hash.hexdigest()

    @property
    def nontrivial(self):
        s = self.stats
        return s["loads failed"] > 0 and s["loads succeeded"] > 0 and self.visible >= 4

    def run(self):
        a = self.first
        a.execute_all()
        b = Run(self.case, a.results)
        b.execute_all()
        self.time_covered = a.time_covered + b.time_covered
        for i, d in a.dumps.items():
            if b.dumps.get(i) != d:
                raise Violation("contents", "load %d yields %s, the text says %s" % (i, d, b.dumps.get(i)))
        for n, (x, y) in enumerate(itertools.zip_longest(a.history, b.history)):
            if x != y:
                raise Violation("aftermath", "operation %d: with failed loads %s, without %s" % (n, x, y))
        self.stats["settled"] += 1


class Engine:
    def __init__(self):
        from . import shrink
        self.shrink = shrink
        self.stages = [shrink.smaller_ops, self.smaller_damage, self.smaller_files]

    # -- generation

    def generate(self, seed):
        rng = random.Random(seed)
        base = gen_mod.Gen(seed, PROFILE).case()
        files = {}
        sources = []
        shared = []
        for a in base["agents"]:
            pieces = self.pieces(rng, a)
            folder = rng.choice(("", "prog", "prog", "prog/agents"))
            root = os.path.join(folder, a["name"] + ".asl")
            self.counter = 0
            self.split(rng, files, shared, root, pieces, rng.choice((0, 1, 1, 2, 3)), a["name"])
            sources.append(dict(root=root, via=rng.choice(("string", "file"))))
        ops = []
        for k in range(len(sources)):
            ops.append(["load", k, None if rng.random() < 0.8 else rng.randint(1, 3)])
        rest = base["ops"]
        for op in rest:
            if rng.random() < 0.35:
                ops.append(["load", rng.randrange(len(sources)), None if rng.random() < 0.7 else rng.randint(1, 3)])
            ops.append(op)
        damages = [self.damage(rng) if rng.random() < (0.3 if i < len(sources) else 0.75) else None for i in range(40)]
        case = dict(seed=seed, files=files, sources=sources, ops=ops, damages=damages, crlf=rng.random() < 0.2,
                    chunks=rng.choice(([8192], [8192], [1], [7, 64, 3], [100], [4096, 1])))
        return case

    def pieces(self, rng, a):
        out = []
        clauses = [ir.term(b) + "." for b in a["beliefs"]]
        clauses += ["%s :- %s." % (ir.term(h), ir.query(q)) for h, q in a["rules"]]
        clauses += ["!%s." % ir.term(g) for g in a["goals"]]
        clauses += [ir.plan(p) for p in a["plans"]]
        for _ in range(rng.randint(0, 2)):
            clauses.append('note("%s", %d).' % (rng.choice(STRINGS), rng.randint(0, 9)))
        if rng.random() < 0.3:
            clauses.append("+note(X, N) : .ctx & N > %d <- .p(0, X)." % rng.randint(0, 6))
        if rng.random() < 0.3:
            # Clauses of different kinds in any order.
            rng.shuffle(clauses)
        for c in clauses:
            if rng.random() < 0.15:
                t = rng.choice(COMMENTS)
                out.append(["comment", t, "\n"])
            out.append(["clause", c, rng.choice(("\n", "\n", "\n\n", " ", "  \n", "\t\n", " "))])
        if out and rng.random() < 0.3:
            # No end of line at the end of the file.
            out[-1][-1] = ""
        if rng.random() < 0.25 and len(out) > 1:
            i = rng.randrange(len(out))
            j = rng.randint(i, len(out))
            out[i:j] = [["begin", rng.randint(1, 3), "\n"]] + out[i:j] + [["end", "\n"]]
        return out

    def split(self, rng, files, shared, path, pieces, depth, base):
        """Moves parts of a file to included files."""
        pieces = list(pieces)
        files[path] = pieces
        if not depth:
            return
        for _ in range(rng.randint(1, 2)):
            if shared and rng.random() < 0.3:
                # A file that several others include.
                target = rng.choice(shared)
                if not self.leads_to(files, target, path):
                    pieces.insert(rng.randint(0, len(pieces)), ["include", target, rng.randrange(3), "\n"])
                continue
            i = rng.randint(0, len(pieces))
            j = min(len(pieces), i + rng.randint(0, 5))
            part = pieces[i:j]
            if sum(p[0] == "begin" for p in part) != sum(p[0] == "end" for p in part):
                continue
            self.counter += 1
            folder = rng.choice(("", "lib", "prog", "prog/lib", "common/deep", os.path.dirname(path)))
            target = os.path.normpath(os.path.join(folder, "%s_%d.asl" % (base, self.counter)))
            pieces[i:j] = [["include", target, rng.randrange(3), rng.choice(("\n", " "))]]
            if i and pieces[i - 1][-1] == "" and pieces[i - 1][0] == "comment":
                pieces[i - 1][-1] = "\n"
            self.split(rng, files, shared, target, part, depth - 1 if rng.random() < 0.8 else 0, base)
            if rng.random() < 0.5:
                shared.append(target)

    def leads_to(self, files, a, b):
        if a == b:
            return True
        return any(p[0] == "include" and self.leads_to(files, p[1], b) for p in files.get(a, ()))

    def damage(self, rng):
        i, j, x = rng.randrange(1 << 20), rng.randrange(1 << 20), rng.randrange(1 << 20)
        k = rng.choice(("trunc",) * 6 + ("bytes",) * 3 + ("read",) * 3 + ("snippet",) * 4 + ("bracket-", "bracket+", "bracket=") +
                       ("char", "dot", "dot", "quote", "utf8", "include", "cycle", "cycle", "begin", "end",
                        "ctx", "ctx") + tuple(OPEN) + ("gone",))
        if k == "read":
            return [k, i, j, rng.choice(READ + ("interrupt", "memory"))]
        if k == "bytes":
            return [k, i, j, rng.randrange(5), rng.choice((rng.randrange(256), ord("."), ord('"'), ord("("), 10, 32, ord("/")))]
        if k == "snippet":
            return [k, i, j, x, rng.choice((1, 1, 1, 2, 3, 5))]
        return [k, i, j, x, rng.randrange(1 << 20)]

    # -- execution

    def simulate(self, case, trace=None):
        sim = None
        try:
            try:
                WATCH.idle = 0
                WATCH.active = True
                sim = LoadSim(case, trace)
                sim.run()
            finally:
                WATCH.active = False
                STREAMS.open_hook = None
            return "ok", None, sim
        except (Violation, Broken) as v:
            return "violation", v, sim
        except Inconclusive as i:
            return "inconclusive", i, sim
        except RecursionError:
            return "inconclusive", Inconclusive("recursion"), sim
        except seams.Hang:
            return "violation", Violation("hang", "a load or step does not return"), sim

    def describe(self, case):
        out = []
        for path, pieces in case["files"].items():
            out.append("// === %s\n%s" % (path, render(case, path, pieces)[0]))
        out.append("// damages %s" % (case["damages"],))
        return "\n".join(out)

    def smaller_damage(self, case):
        d = list(case["damages"])
        while d and d[-1] is None:
            d.pop()
        if len(d) < len(case["damages"]):
            yield dict(case, damages=d)
        for i, x in enumerate(d):
            if x is not None:
                yield dict(case, damages=d[:i] + [None] + d[i + 1:])
        if case["crlf"]:
            yield dict(case, crlf=False)
        if case["chunks"] != [8192]:
            yield dict(case, chunks=[8192])
        for i, s in enumerate(case["sources"]):
            if s["via"] == "file":
                yield dict(case, sources=case["sources"][:i] + [dict(s, via="string")] + case["sources"][i + 1:])

    def smaller_files(self, case):
        for path, pieces in case["files"].items():
            for c in self.shrink.chunks(list(pieces)):
                if sum(p[0] == "begin" for p in c) == sum(p[0] == "end" for p in c):
                    yield dict(case, files=dict(case["files"], **{path: c}))
