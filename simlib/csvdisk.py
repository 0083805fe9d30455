"""The real .csv action on a simulated disk.

Files opened by the interpreter are real buffered text files of the io module
over a simulated raw file. Every raw operation is a crash instant (what is on
the disk then is what a crash leaves) and can fail.
"""
import collections
import hashlib
import io
import os
import random
import re

from . import seams
from . import sim as sim_mod
from .seams import CLOCK, STREAMS
from .sim import Inconclusive, Violation, WATCH
from .world import Broken, World

ERR = dict(nospace=(28, "No space left on device"), io=(5, "Input/output error"), perm=(13, "Permission denied"),
           files=(24, "Too many open files"), quota=(122, "Disk quota exceeded"), readonly=(30, "Read-only file system"))


class Disk:
    def __init__(self, changed):
        self.files = {}          # path -> bytearray
        self.changed = changed   # called after each change: a crash instant
        self.faults = {}         # (kind of operation, nth) -> fault
        self.count = collections.Counter()
        self.injected = collections.Counter()
        self.capacity = None
        self.bad = 0             # error faults in this step
        self.open_files = 0
        self.encoding = "utf-8"

    def fault(self, what):
        self.count[what] += 1
        f = self.faults.pop((what, self.count[what]), None)
        if f is not None:
            self.injected["%s: %s" % (what, f)] += 1
        return f

    def fail(self, kind):
        self.bad += 1
        raise OSError(*ERR[kind])

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not isinstance(file, (str, os.PathLike)) or not str(file).endswith(".csv"):
            return seams.real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        path = os.path.basename(os.fspath(file))
        f = self.fault("open")
        if f is not None and f != "short":
            self.fail(f)
        raw = RawFile(self, path, mode.replace("b", "").replace("t", ""))
        if buffering == 0:
            return raw
        size = 8192 if buffering in (-1, 1) else buffering
        buf = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedReader(raw, size) if raw.readable() else \
            io.BufferedWriter(raw, size)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or self.encoding, errors, newline, buffering == 1)


class RawFile(io.RawIOBase):
    def __init__(self, disk, path, mode):
        self.disk = disk
        self.name = path
        self.pos = 0
        self.append = "a" in mode
        kind = mode.replace("+", "") or "r"
        self.mode = "rb+" if "+" in mode else kind + "b"
        self._r = "+" in mode or kind == "r"
        self._w = "+" in mode or kind != "r"
        if kind == "r":
            if path not in disk.files:
                raise FileNotFoundError(2, "No such file or directory", path)
        elif kind == "x" and path in disk.files:
            raise FileExistsError(17, "File exists", path)
        if kind in ("w", "x"):
            disk.files[path] = bytearray()
            disk.changed(path)
        else:
            disk.files.setdefault(path, bytearray())
        # The file stays the same if the path is reused.
        self.data = disk.files[path]
        disk.open_files += 1

    def close(self):
        if not self.closed:
            self.disk.open_files -= 1
            super().close()

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return 1000000 + id(self) % 1000000

    def isatty(self):
        return False

    def readinto(self, b):
        n = min(len(b), len(self.data) - self.pos)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n

    def seek(self, offset, whence=0):
        self.pos = max(0, offset + (0, self.pos, len(self.data))[whence])
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        f = self.disk.fault("truncate")
        if f is not None and f != "short":
            self.disk.fail(f)
        size = self.pos if size is None else size
        if size < len(self.data):
            del self.data[size:]
        else:
            self.data.extend(b"\0" * (size - len(self.data)))
        self.disk.changed(self.name)
        return size

    def write(self, b):
        b = bytes(b)
        disk = self.disk
        f = disk.fault("write")
        if f is not None and f != "short":
            disk.fail(f)
        if f == "short" and len(b) > 1:
            b = b[:max(1, len(b) * 3 // 5)]
        if disk.capacity is not None:
            room = disk.capacity - sum(map(len, disk.files.values()))
            if room <= 0 and b:
                disk.injected["full disk"] += 1
                disk.fail("nospace")
            if room < len(b):
                disk.injected["short write on nearly full disk"] += 1
                b = b[:room]
        if self.append:
            self.pos = len(self.data)
        if self.pos > len(self.data):
            self.data.extend(b"\0" * (self.pos - len(self.data)))
        # A crash can happen while the data is transferred.
        half = len(b) // 2
        for part in (b[:half], b[half:]):
            if part:
                self.data[self.pos:self.pos + len(part)] = part
                self.pos += len(part)
                disk.changed(self.name)
        return len(b)


def show_arg(a):
    return '"%s"' % a[1] if a[0] == "s" else a[2] if a[0] == "v" else a[1]


def source(agent):
    """The program of an agent: intentions that write rows."""
    lines = ["!w%d." % i for i in range(len(agent["intentions"]))]
    for i, rows in enumerate(agent["intentions"]):
        body = []
        for r in rows:
            if r[0] == "wait":
                body.append(".wait(%d)" % r[1])
            elif r[0] == "yield":
                body.append(".q(-1)")
            else:
                args = ", ".join([str(r[1])] + [show_arg(a) for a in r[2]])
                for a in r[2]:
                    if a[0] == "v":
                        body += a[3]
                body.append(".q(%d) & .csv(%s) & .p(%d)" % (r[1], args, r[1]))
        lines.append("+!w%d <-\n    %s." % (i, ";\n    ".join(body or ["true"])))
    return "\n".join(lines) + "\n"


def expected_text(r):
    # Literal text: strings are written as they are.
    return ",".join([str(r[1])] + [a[1] for a in r[2]]) + "\n"


WORD = frozenset(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
NAME = re.compile(rb"_X_\w+")


def fits(text, data):
    """Is data a prefix of text, where b"\0" stands for the name of an unbound variable?"""
    i = 0
    parts = text.split(b"\0")
    for n, part in enumerate(parts):
        if n:
            k = i
            while i < len(data) and data[i] in WORD:
                i += 1
            if i == k:
                return i == len(data)
        rest = data[i:i + len(part)]
        if not part.startswith(rest):
            return False
        i += len(rest)
        if i == len(data):
            return True
    return False


class File:
    """What may be on the disk for one agent."""

    def __init__(self, before):
        self.before = before     # left by an earlier agent of that name
        self.done = b""
        self.tails = [b""]       # the row being written, the row that failed


class CsvSim:
    def __init__(self, case, trace=None):
        self.case = case
        self.trace = trace
        seams.begin_run(case["seed"])
        self.world = World()
        self.world.case = case
        self.disk = Disk(self.changed)
        self.disk.encoding = case.get("encoding", "utf-8")
        self.disk.capacity = case.get("capacity")
        for what, nth, f in case.get("faults", ()):
            self.disk.faults[(what, nth)] = f
        STREAMS.open_hook = self.disk.open
        self.rows = {}           # id -> (agent source, row)
        for k, a in enumerate(case["agents"]):
            a["text"] = source(a)
            for i, rows in enumerate(a["intentions"]):
                for r in rows:
                    if r[0] == "row":
                        self.rows[r[1]] = (k, i, r)
        self.files = {}
        self.kind = {}           # agent name -> source
        self.progress = {}       # (agent name, intention) -> ids completed
        self.current = None
        self.acting = None
        self.stats = collections.Counter()
        self.sig_hash = hashlib.blake2b(digest_size=12)
        self.crash_points = 0
        self.visible = 0
        self.time_covered = 0.0
        self.failed = {}
        self.switches = 0
        self.last = None

    @property
    def sig(self):
        return self.sig_hash.hexdigest()

    @property
    def nontrivial(self):
        return self.visible >= 4 and (self.switches >= 2 or sum(self.disk.injected.values()) > 0)

    def encode(self, r):
        return expected_text(r).encode(self.disk.encoding, "replace")

    # -- invariants

    def changed(self, path):
        """After any change of the disk: would a crash now be fine?"""
        self.crash_points += 1
        self.check_file(path, self.acting)

    def check_file(self, path, acting):
        name = path[:-4]
        f = self.files.get(name)
        if f is None:
            raise Broken("stray", "file %s written, but no such agent" % path)
        if acting is not None and acting != name:
            raise Broken("mixed", "agent %s changes the file %s" % (acting, path))
        data = bytes(self.disk.files[path])
        if f.before is not None:
            if data == f.before:
                return
            # From the first change on it is the new agent's file.
            f.before = None
        started = self.in_flight()
        tails = list(f.tails)
        if started is not None and acting == name:
            tails.append(self.encode(self.rows[started][2]))
        if data.startswith(f.done) and any(fits(t, data[len(f.done):]) for t in tails):
            return
        raise Broken("contents", "file %s holds %s, completed rows are %s, uncompleted %s" % (
            path, short(data), short(f.done), [short(t) for t in tails]))

    def in_flight(self):
        cur = None
        for e in self.world.log:
            if e[0] == ".q" and e[2][1] >= 0:
                cur = int(e[2][1])
            elif e[0] == ".p":
                cur = None
        return cur

    def check_all(self):
        for name, f in self.files.items():
            data = bytes(self.disk.files.get(name + ".csv", b""))
            if f.before is not None and data == f.before:
                if f.done:
                    raise Violation("lost", "completed rows of %s are not in its file" % name)
                continue
            if data.startswith(f.done) and any(fits(t, data[len(f.done):]) for t in f.tails):
                continue
            raise Violation("contents", "file %s.csv holds %s, completed rows are %s, uncompleted %s" % (
                name, short(data), short(f.done), [short(t) for t in f.tails]))

    # -- operations

    def create(self, k):
        w = self.world
        k %= len(self.case["agents"])
        name = w.build(k)[0]
        del w.log[:]
        if name in self.files:
            left = bytes(self.disk.files.get(name + ".csv", b""))
            self.stats["name reused"] += 1
        else:
            left = b""
        f = self.files[name] = File(left)
        self.kind[name] = k
        for i, _ in enumerate(self.case["agents"][k]["intentions"]):
            self.progress[name, i] = []
            self.failed.pop((name, i), None)
        self.note(["create", k], ())

    def note(self, op, log, ret=None):
        self.stats["ops"] += 1
        if log:
            self.visible += len(log)
            self.sig_hash.update(repr((op, log)).encode("utf-8", "surrogatepass"))
        if self.trace is not None:
            self.trace.append((op, log, ret, {p: hashlib.blake2b(NAME.sub(b"_", bytes(d)), digest_size=6).hexdigest()
                                              for p, d in sorted(self.disk.files.items())}))

    def step(self, name):
        w = self.world
        if name != self.last:
            self.switches += 1
            self.last = name
        self.acting = name
        self.disk.bad = 0
        try:
            with WATCH:
                ret = w.step(name)
        finally:
            self.acting = None
        log = w.take_log()
        self.note(["step", name], log, ret)
        f = self.files[name]
        current = None
        for e in log:
            if e[0] == "raw":
                raise Violation("raw-exception", repr(e))
            if e[0] == "err":
                if current is None:
                    raise Violation("error", "step of %s fails without writing: %s" % (name, log))
                k, i, r = self.rows[current]
                text = expected_text(r)
                if not self.disk.bad and not unencodable(text, self.disk.encoding):
                    raise Violation("error", "row %d fails although no disk operation failed" % current)
                f.tails = f.tails + [self.encode(r)]
                self.failed[name, i] = current
                self.stats["rows failed"] += 1
                current = None
            elif e[0] == ".q" and e[2][1] >= 0:
                if current is not None:
                    raise Violation("order", "row %d is neither completed nor failed" % current)
                current = int(e[2][1])
                k, i, r = self.rows[current]
                if k != self.kind[name]:
                    raise Violation("order", "row of another program")
                want = [x[1] for x in self.case["agents"][k]["intentions"][i] if x[0] == "row"]
                got = self.progress[name, i]
                if want[len(got)] != current or (name, i) in self.failed:
                    raise Violation("order", "row %d out of order" % current)
            elif e[0] == ".p":
                if int(e[2][1]) != current:
                    raise Violation("order", "completed row %s, started %s" % (e[2], current))
                k, i, r = self.rows[current]
                self.progress[name, i].append(current)
                f.before = None
                row = self.encode(r)
                if b"\0" in row:
                    written = bytes(self.disk.files.get(name + ".csv", b""))[len(f.done):]
                    if written.endswith(b"\n") and fits(row, written):
                        # Now it is known how the unbound variables are called.
                        row = written
                f.done += row
                f.tails = [b""]
                self.stats["rows completed"] += 1
                current = None
        if current is not None:
            raise Violation("order", "row %d neither completes nor fails" % current)
        self.check_all()
        return ret

    def live(self, i):
        order = self.world.order
        return order[i % len(order)]

    def run(self):
        w = self.world
        for k in self.case["build"]:
            self.create(k)
        for op in self.case["ops"]:
            if op[0] == "run":
                name = self.live(op[1])
                for _ in range(op[2]):
                    if not self.step(name):
                        break
            elif op[0] == "adv":
                CLOCK.now += op[1] / 1000.0
                self.time_covered += op[1] / 1000.0
            elif op[0] == "kill":
                if len(w.order) > 1:
                    w.kill(self.live(op[1]))
                    self.stats["fault:agent removed"] += 1
            elif op[0] == "create":
                if len(w.order) < 6:
                    self.create(op[1])
            elif op[0] == "capacity":
                self.disk.capacity = op[1]
                self.stats["disk space changes"] += 1
        # Faults stop.
        self.disk.faults.clear()
        self.disk.capacity = None
        for _ in range(3000):
            busy = [self.step(name) for name in list(w.order)]
            if any(b is not False for b in busy):
                continue
            d = [w.objs[n].shortest_deadline() for n in w.order]
            d = [x for x in d if x is not None]
            if not d:
                break
            self.time_covered += max(0.0, min(d) + 0.125 - CLOCK.now)
            CLOCK.now = max(CLOCK.now, min(d) + 0.125)
        else:
            raise Violation("restless", "does not come to rest")
        for name in w.order:
            for i, rows in enumerate(self.case["agents"][self.kind[name]]["intentions"]):
                want = [x[1] for x in rows if x[0] == "row"]
                if (name, i) not in self.failed and self.progress[name, i] != want:
                    raise Violation("unfinished", "%s has written %s of %s" % (name, self.progress[name, i], want))
        for what, n in self.disk.injected.items():
            self.stats["fault:disk " + what] += n
        self.stats["crash instants judged"] += self.crash_points


def unencodable(text, encoding):
    try:
        text.encode(encoding)
        return False
    except UnicodeEncodeError:
        return True


def short(data):
    s = data.decode("utf-8", "replace")
    return repr(s if len(s) < 400 else s[:180] + "...(%d)..." % len(s) + s[-180:])


class Engine:
    def __init__(self):
        from . import shrink
        self.shrink = shrink
        self.stages = [shrink.smaller_ops, self.smaller_faults, self.smaller_rows]

    def generate(self, seed):
        rng = random.Random(seed)
        ids = iter(range(1, 10000))
        big = rng.random() < 0.5

        def arg():
            r = rng.random()
            if r < 0.3:
                return ("a", str(rng.randint(0, 99)))
            if r < 0.5:
                return ("a", rng.choice(("a", "b", "f(1, a)", "[1, 2]", "[]", "-3", "2.5")))
            if r < 0.65:
                return bound()
            if r < 0.93 or not big:
                return ("s", "".join(rng.choice("abc xyz,;'.äöß€\t") for _ in range(rng.randint(0, 12))))
            return ("s", rng.choice("pqrs") * rng.choice((300, 3000, 8000, 8191, 8192, 8193, 9000, 20000)))
        count = iter(range(1, 10000))

        def bound():
            # Text to write, argument, formulas that bind its variables.
            a, b = ["%s%d" % (x, next(count)) for x in "VU"]
            x, y = rng.choice(("3", "b", "[1, 2]", "f(a)", "-2.5", "true")), str(rng.randint(0, 9))
            how = rng.randrange(7)
            binds = ["%s = %s" % (a, x), "%s = %s" % (b, y)]
            if rng.random() < 0.3:
                binds = ["%s = g(%s)" % (a, b), "%s = %s" % (b, y)]
                x = "g(%s)" % y
            if rng.random() < 0.3:
                binds.reverse()
            if rng.random() < 0.3:
                binds.insert(rng.randint(0, 2), ".q(-1)")
            text, arg = [("%s", "%s"), ("f(%s)", "f(%s)"), ("[%s, 1]", "[%s, 1]"), ("f([g(%s)], c)", "f([g(%s)], c)"),
                         ("[[%s]]", "[[%s]]"), ("h(%s)", "h(%s)"), ("[a, %s]", "[a, %s]")][how]
            if rng.random() < 0.25:
                n = rng.randint(0, 5)
                return ("v", text % (n + int(y)), arg % ("%s + %d" % (b, n)), binds)
            if rng.random() < 0.3:
                return ("v", text % ("%s, %s" % (x, y)) if how else x, arg % ("%s, %s" % (a, b)) if how else a, binds)
            return ("v", text % x, arg % a, binds)

        def loose():
            # An unbound variable that a later row may find bound.
            if open_vars and rng.random() < 0.6:
                a = rng.choice(open_vars)
                if rng.random() < 0.6:
                    open_vars.remove(a)
                    x = rng.choice(("3", "b", "[1, 2]", "f(a)", "true"))
                    binds = ["%s = %s" % (a, x)]
                else:
                    x, binds = "\0", []
            else:
                a, x, binds = "W%d" % next(count), "\0", []
                open_vars.append(a)
            text = rng.choice(("%s", "f(%s)", "[%s, 1]", "[a, g(%s)]"))
            return ("v", text % x, text % a, binds)
        agents = []
        for _ in range(rng.randint(1, 3)):
            ints = []
            for _ in range(rng.randint(1, 3)):
                rows = []
                open_vars = []
                for _ in range(rng.randint(1, 7)):
                    cells = [arg() for _ in range(rng.randint(0, 3))]
                    if cells and rng.random() < 0.25:
                        cells[rng.randrange(len(cells))] = loose()
                    rows.append(("row", next(ids), cells))
                    if rng.random() < 0.25:
                        rows.append(("wait", rng.choice((125, 250, 1000))))
                    elif rng.random() < 0.2:
                        rows.append(("yield", 0))
                ints.append(rows)
            agents.append(dict(name=rng.choice(("ag", "bob", "ag1", "x")), intentions=ints))
        build = [rng.randrange(len(agents)) if rng.random() < 0.3 else k for k in range(len(agents))]
        case = dict(seed=seed, agents=agents, build=build)
        mode = rng.choice(("none", "faults", "faults", "space", "faults+space"))
        faults = []
        if "faults" in mode:
            for _ in range(rng.randint(1, 5)):
                what = rng.choice(("write", "write", "write", "open", "truncate"))
                kind = rng.choice(("short", "short", "nospace", "io", "quota")) if what == "write" else \
                    rng.choice(("perm", "files", "io", "readonly"))
                n = rng.randint(1, 14 if what == "write" else 4)
                for j in range(rng.choice((1, 1, 2, 4))):
                    faults.append((what, n + j, kind))
        case["faults"] = faults
        if "space" in mode:
            case["capacity"] = rng.choice((0, 5, 20, 50, 100, 9000))
        if rng.random() < 0.15:
            case["encoding"] = rng.choice(("ascii", "latin-1"))
        ops = []
        for _ in range(rng.randint(10, 50)):
            r = rng.random()
            if r < 0.8:
                ops.append(["run", rng.randrange(6), rng.randint(1, 3)])
            elif r < 0.88:
                ops.append(["adv", rng.choice((125, 250, 1000))])
            elif r < 0.91:
                ops.append(["kill", rng.randrange(6)])
            elif r < 0.94:
                ops.append(["create", rng.randrange(len(agents))])
            elif "space" in mode:
                ops.append(["capacity", rng.choice((0, 10, 30, 100, 1000, 20000, None))])
        case["ops"] = ops
        return case

    def simulate(self, case, trace=None):
        sim = None
        try:
            try:
                WATCH.idle = 0
                WATCH.active = True
                sim = CsvSim(case, trace)
                sim.run()
            finally:
                WATCH.active = False
                STREAMS.open_hook = None
            return "ok", None, sim
        except (Violation, Broken) as v:
            return "violation", v, sim
        except Inconclusive as i:
            return "inconclusive", i, sim
        except seams.Hang:
            return "violation", Violation("hang", "a step does not return"), sim

    def describe(self, case):
        return "\n".join("// %s\n%s" % (a["name"], source(a)) for a in case["agents"])

    def smaller_faults(self, case):
        for c in self.shrink.chunks(list(case["faults"])):
            yield dict(case, faults=c)
        for k in ("capacity", "encoding"):
            if k in case:
                yield {x: y for x, y in case.items() if x != k}
        if len(case["build"]) > 1:
            for i in range(len(case["build"])):
                yield dict(case, build=case["build"][:i] + case["build"][i + 1:])

    def smaller_rows(self, case):
        for k, a in enumerate(case["agents"]):
            def put(ints):
                return dict(case, agents=case["agents"][:k] + [dict(a, intentions=ints)] + case["agents"][k + 1:])
            for c in self.shrink.chunks(list(a["intentions"])):
                yield put(c)
            for i, rows in enumerate(a["intentions"]):
                for c in self.shrink.chunks(list(rows)):
                    yield put(a["intentions"][:i] + [c] + a["intentions"][i + 1:])
                for j, r in enumerate(rows):
                    if r[0] == "row" and r[2]:
                        yield put(a["intentions"][:i] + [rows[:j] + [("row", r[1], [])] + rows[j + 1:]] +
                                  a["intentions"][i + 1:])
