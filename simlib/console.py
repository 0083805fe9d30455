"""The real interactive console on a simulated terminal and clock.

A session is a sequence of commands, the way they are split over lines, faults
(malformed and failing commands, end of input, an interrupt at the prompt) and
the behaviour of clock and sleep. It is compared with two others: one command
per line without any malformed or failing part, and one plan whose body consists
of all the commands.
"""
import collections
import hashlib
import io
import logging
import random
import re
import sys

from . import seams
from .seams import CLOCK, STREAMS, agentspeak
from .sim import Inconclusive, Violation, WATCH
from .world import Broken, SimAgent, World

runtime = agentspeak.runtime

TOKEN = re.compile(r'''"(?:[^"\\]|\\.)*"|\.?[a-z~][a-zA-Z0-9_]*(?:\.[a-z][a-zA-Z0-9_]*)*|\d*\.\d+|\d+|_*[A-Z][a-zA-Z0-9_]*|_+|'''
                   r'''<-|:-|-\+|!!|\*\*|\\==|=\.\.|==|<=|>=|\|&\||\|\|\||\S''')

IDENTITY = re.compile(r"_[0-9a-f]+_[0-9a-f]{8,}")

BAD = ("+z(.", ")", "+z(1)) .", "X = .", "+z(1) bar(2).", "!.", "if (true { +z }.", ";.", "1 2.", "+z; ; +z.", "+z(1) +z(2).",
       "}", "+z(1) & .", "3.", "+z(9); 4.", "+z(1) <- true.", "else { +z }.", "+z(8); .p(1, 2 3).", "for { +z }.", "+z(1); $ .",
       "$", "+z(1), +z(2).", "not .", "+z(3); (true.", "+z(4); while (true) { +z }}.", "X = New & 5.", "New + 1.",
       "+z(5); \"text\".", "+z(New); 7.", "?3.", "+z(6) ++ .", "@a +z(1).", "z :- true.", "{ include(\"x.asl\") }",
       "+z(7); if (2) { +z }.", ".", ". .", "+z(1.", "+z(]).", "+z(1); .")
# The last part of a failing command, and its effects before it fails.
FAILING = (("false", ""), (".raise", ""), ("no_such(1)", ""), ("?no_such(Fa)", ""), ("!nogoal(1)", ""), ("2 < 1", ""),
           ("!bad", ""), ("!deep(2)", ""), ("!late", ""), ("for (.range(3, Fb)) { .raise }", ""), ("if (true) { false }", ""),
           ("while (true) { !bad }", ""), ("for (.member(Fc, [1, 2])) { !bad }", ""), (".no_action(1)", ""), (".wait(250); false", ""),
           ("!mark; .raise", "!mark"), ("not true", ""), ("for (b(Fd)) { if (true) { while (true) { .raise } } }; false", ""),
           (".range(3, Fe) & Fe > 4", ""), ("!!tail(1); .raise", "!!tail(1)"), ("+m(1); false", "+m(1)"),
           ("Fg = 1 & Fg = 2", ""), ("for (.range(2, Fh)) { ?no_such(Fh) }", ""), (".io(1) & .raise", ".io(1)"))

PLANS = '''
b(1). b(2). c(a, 1).
r(X, Y) :- b(X) & Y = X + 1.
r(7, 8).
+!g(N) <- .q(1000 + N); .p(500, N).
+!out(N, X) <- .p(501, N); X = f(N).
+!twice(N, X) : N > 1 <- X = N * 2.
+!twice(N, X) <- X = N.
+!bg(N) <- .q(N); .wait(125); .q(N, 1); +done(N).
+!tail(N) <- .q(N).
+!slow(N) <- .wait(N); .p(502, N).
+!bad <- .wait(125); .raise.
+!deep(N) : N > 0 <- !deep(N - 1).
+!deep(_) <- false.
+!late <- .wait(1000); !nogoal(2).
+!mark <- +m(2).
+?t(X) <- X = 5.
+b(X) : X > 5 <- .q(X, 2).
'''


class Session:
    """One run of the real console."""

    def __init__(self, case, lines, end, failing, trace=None):
        self.case = case
        self.lines = lines
        self.end = end               # "eof" or "interrupt"
        self.trace = trace
        self.failing = failing       # the commands may fail
        seams.begin_run(case["seed"])
        self.world = World()
        self.world.case = case
        self.pos = 0
        self.prompts = []            # observations at each prompt
        self.rng = random.Random(case["seed"] + 1)
        self.slept = 0.0
        self.sleeps = 0
        self.stats = collections.Counter()
        self.reports = 0
        self.dirt = False

    def sleep(self, seconds):
        self.sleeps += 1
        if self.sleeps > 5000:
            raise seams.Hang()
        how = self.rng.choice(self.case["sleep"])
        if how == "early" and seconds > 0.01:
            seconds *= 0.5
            self.stats["fault:early wake-up"] += 1
        elif how == "late":
            seconds += 0.25
            self.stats["fault:late wake-up"] += 1
        CLOCK.now += seconds + 0.0005
        self.slept += seconds

    def input(self, prompt):
        w = self.world
        bb = w.bb(self.agent)
        self.prompts.append((len(w.log), bb, self.reports + len(self.err.getvalue().strip())))
        busy = len(self.agent.intentions)
        if self.trace is not None:
            self.trace.append(("prompt", self.pos, list(w.log), CLOCK.now))
        if busy:
            raise Broken("busy", "prompt while %d intentions are left" % busy)
        if self.pos >= len(self.lines):
            self.ended = True
            self.stats["fault:" + self.end] += 1
            raise EOFError if self.end == "eof" else KeyboardInterrupt
        line = self.lines[self.pos]
        self.pos += 1
        return line

    ended = False

    def run(self):
        w = self.world
        self.agent = w.env.build_agent(agentspeak.StringSource("human.asl", self.case["source"]), w.actions, agent_cls=SimAgent)
        self.agent.step()
        del w.log[:]
        self.err = io.StringIO()
        CLOCK.sleep_hook = self.sleep
        STREAMS.input_hook = self.input
        handler = Handler(self)
        loggers = [logging.getLogger(n) for n in logging.root.manager.loggerDict if n.startswith("agentspeak")]
        saved = sys.stdout, sys.stderr, [(g, g.handlers, g.propagate) for g in loggers]
        for g in loggers:
            g.handlers = [handler]
            g.propagate = False
        logging.disable(logging.NOTSET)
        sys.stdout, sys.stderr = w.out, self.err
        error = None
        try:
            with WATCH:
                runtime.repl(self.agent, w.env, w.actions)
            error = "returns"
        except SystemExit as e:
            if not self.ended:
                error = "SystemExit before the end of input"
            elif e.code not in (None, 0):
                error = "exit code %r" % (e.code,)
        except (Broken, seams.SimError, seams.Hang, Inconclusive):
            raise
        except BaseException as e:
            error = "%s: %s" % (type(e).__name__, e)
        finally:
            sys.stdout, sys.stderr = saved[:2]
            logging.disable(logging.CRITICAL)
            for g, h, p in saved[2]:
                g.handlers, g.propagate = h, p
            CLOCK.sleep_hook = None
            STREAMS.input_hook = None
        if error is not None:
            raise Violation("exit", "session of %d lines ends at line %d with %s" % (len(self.lines), self.pos, error))
        if not self.ended:
            raise Violation("exit", "session ends before its input")
        return self


class Handler(logging.Handler):
    def __init__(self, session):
        super().__init__()
        self.session = session

    def emit(self, record):
        if record.levelno >= logging.ERROR:
            self.session.reports += 1


def values(entry):
    """What a printed line says about variables, or None."""
    if entry[0] != "print":
        return None
    text = IDENTITY.sub("", (entry[1] + " " + entry[2]).strip())
    m = re.match(r"(\d+) unbound: (.*)$", text)
    if m:
        names = sorted(x.split(" ")[0] for x in m.group(2).split(", "))
        return ("unbound", tuple(x for x in names if x[0] not in "F_"))
    m = re.match(r"([A-Z]\w*) = (.*)$", text, re.S)
    if m:
        return ("bound", m.group(1), m.group(2))
    return None


def digest(log):
    """Ordered observations of the commands, unordered ones of other
    intentions, and shown values."""
    front, back, shown = [], [], []
    for e in log:
        v = values(e)
        if v is not None:
            if not (v[0] == "bound" and v[1].startswith("F")) and v != ("unbound", ()):
                shown.append(v)
        elif e[0] in (".p", ".io", "print", ".fn", ".two", ".pred", ".proc", ".conv"):
            front.append(tuple(IDENTITY.sub("", x) for x in e) if e[0] == "print" else e)
        elif e[0] in (".q", ".r"):
            back.append(e)
    return front, sorted(map(repr, back)), shown


class ConsoleSim:
    def __init__(self, case, trace=None):
        self.case = case
        self.trace = trace
        self.stats = collections.Counter()
        self.visible = 0
        self.time_covered = 0.0
        self.sig_hash = hashlib.blake2b(digest_size=12)
        self.switches = 0

    @property
    def sig(self):
        return self.sig_hash.hexdigest()

    @property
    def nontrivial(self):
        return self.visible >= 4 and self.stats["commands"] >= 3

    def layout(self):
        """Lines of the session and the line in which each command ends."""
        text = ""
        ends = []
        for c in self.case["commands"]:
            for tok, sep in zip(c["tokens"], c["seps"]):
                text += tok
                end = text.count("\n")
                text += sep
            if c["kind"] == "bad":
                # What follows a malformed command in its line is part of it.
                if not text.endswith("\n"):
                    text += "\n"
            elif not text[-1].isspace():
                text += " "
            ends.append(end)
        lines = text.split("\n")
        cut = self.case.get("cut")
        if cut is not None:
            lines = lines[:cut % (len(lines) + 1)]
        ends = [e for e in ends if e < len(lines)]
        return lines, ends

    def run(self):
        case = self.case
        lines, ends = self.layout()
        a = Session(case, lines, case["end"], True, self.trace).run()
        commands = case["commands"][:len(ends)]
        plain = []
        for c in commands:
            plain.append("" if c["kind"] == "bad" else c["alt"])
        b = Session(case, plain, "eof", False).run()
        self.time_covered = a.slept + b.slept
        for k, n in a.stats.items():
            self.stats[k] += n
        self.stats["commands"] += len(commands)
        self.stats["lines"] += len(lines)
        for c in commands:
            if c["kind"] != "ok":
                self.stats["fault:%s command" % ("malformed" if c["kind"] == "bad" else "failing")] += 1
        self.visible = len(a.world.log)
        self.sig_hash.update(repr((lines, a.world.log)).encode("utf-8", "surrogatepass"))
        # Shown values after truncated commands do not count.
        drop = set()
        for i, c in enumerate(commands):
            if c["kind"] == "fail":
                drop.update(range(b.prompts[i][0], b.prompts[i + 1][0]))
        blog = b.world.log
        for i in drop:
            if values(blog[i]) is not None:
                blog[i] = ("dropped",)
        seen = -1
        for n, (length, bb, reports) in enumerate(a.prompts):
            # n lines have been entered.
            done = sum(e < n for e in ends)
            if done != seen:
                other = b.prompts[done]
            x = digest(a.world.log[:length])
            y = digest(blog[:other[0]])
            for what, p, q in zip(("effects", "effects of other intentions", "values"), x, y):
                if p != q:
                    k = next((i for i, (s, t) in enumerate(zip(p, q)) if s != t), min(len(p), len(q)))
                    raise Violation("session", "after line %d (%d commands) the %s differ at %d: %s, one command per line %s" % (
                        n, done, what, k, p[k:k + 3], q[k:k + 3]))
            if bb != other[1]:
                raise Violation("session", "after line %d (%d commands) the beliefs are %s, one command per line %s" % (
                    n, done, sorted(map(repr, bb - other[1])), sorted(map(repr, other[1] - bb))))
            if n and any(c["kind"] != "ok" for c in commands[max(seen, 0):done]) and reports == a.prompts[n - 1][2]:
                raise Violation("unreported", "a bad command in line %d is not reported" % n)
            seen = done
        for i, c in enumerate(commands):
            if c["kind"] == "ok" and b.prompts[i + 1][2] > b.prompts[i][2] and not c["background"]:
                raise Violation("error", "command %s reports an error" % c["alt"])
        self.as_plan(commands, b, blog)
        self.stats["settled"] += 1

    def as_plan(self, commands, b, blog):
        """The commands up to the first failing one as the body of a plan."""
        case = self.case
        body = []
        names = []
        spans = []
        for i, c in enumerate(commands):
            if c["kind"] == "bad":
                continue
            if c["kind"] == "fail" or c["background"]:
                break
            for v in re.findall(r"\b[A-Z]\w*", re.sub(r'"(?:[^"\\]|\\.)*"', "", c["alt"])):
                if v not in names:
                    names.append(v)
            body.append(c["alt"][:-1])
            body.append(".show(%s)" % ", ".join([str(i)] + [x for v in sorted(names) for x in ('"%s"' % v, v)]))
            body.append(".wait(1000000)")
            spans.append(i)
        if not spans:
            return
        seams.begin_run(case["seed"])
        w = World()
        w.case = case
        shows = []

        @w.actions.add(".show")
        def _show(agent, term, intention):
            args = list(term.args)
            w.emit(".show", int(args[0]))
            unbound = []
            for name, v in zip(args[1::2], args[2::2]):
                if isinstance(v, agentspeak.Var) and v not in intention.scope:
                    unbound.append(name)
                else:
                    w.emit("print", name, "= %s" % agentspeak.asl_str(agentspeak.deref(v, intention.scope)), "ok")
            if unbound:
                w.emit("print", "%d" % len(unbound), "unbound: " + ", ".join(n + " =" for n in unbound))
            yield

        source = case["source"] + "\n+!commands <-\n    %s.\n" % ";\n    ".join(body)
        agent = w.env.build_agent(agentspeak.StringSource("human.asl", source), w.actions, agent_cls=SimAgent)
        agent.step()
        del w.log[:]
        sleeps = [0]

        def sleep(seconds):
            sleeps[0] += 1
            if sleeps[0] > 20000:
                raise seams.Hang()
            CLOCK.now += seconds + 0.001
        CLOCK.sleep_hook = sleep
        saved = sys.stdout
        sys.stdout = w.out
        try:
            with WATCH:
                agent.call(agentspeak.Trigger.addition, agentspeak.GoalType.achievement, agentspeak.Literal("commands"),
                           runtime.Intention())
                w.env.run_agent(agent)
        finally:
            sys.stdout = saved
            CLOCK.sleep_hook = None
        x = digest(blog[:b.prompts[spans[-1] + 1][0]])
        y = digest([e for e in w.log if e[0] != ".show"])
        for what, p, q in zip(("effects", "effects of other intentions", "values"), x, y):
            if p != q:
                k = next((i for i, (s, t) in enumerate(zip(p, q)) if s != t), min(len(p), len(q)))
                raise Violation("plan", "the %s of %d commands differ at %d: %s, as one plan body %s" % (
                    what, len(spans), k, p[k:k + 3], q[k:k + 3]))
        bb, bb2 = b.prompts[spans[-1] + 1][1], w.bb(agent)
        if bb != bb2:
            raise Violation("plan", "the beliefs after %d commands are %s, as one plan body %s" % (
                len(spans), sorted(map(repr, bb - bb2)), sorted(map(repr, bb2 - bb))))
        self.stats["compared with a plan"] += 1


class Engine:
    def __init__(self):
        from . import shrink
        self.shrink = shrink
        self.stages = [self.smaller_session]

    # -- generation

    def generate(self, seed):
        rng = random.Random(seed)
        self.rng = rng
        self.ids = 0
        self.bound = []
        self.open = []
        self.used = 0
        commands = []
        n = rng.randint(1, 14)
        faulty = rng.random() < 0.7
        style = rng.choice(("lines", "one", "split", "split", "mixed"))
        for _ in range(n):
            r = rng.random()
            if faulty and r < 0.2:
                text, alt, kind = rng.choice(BAD), "", "bad"
                tokens = [text]
                seps = ["\n"]
                background = False
            else:
                stmts = [self.stmt() for _ in range(rng.choice((1, 1, 2, 3, 5)))]
                background = any("!!bad" in s for s in stmts)
                text = alt = "; ".join(stmts) + "."
                kind = "ok"
                if faulty and r < 0.4:
                    last, instead = rng.choice(FAILING)
                    text = "; ".join(stmts + [last] + ([self.text_only()] if rng.random() < 0.5 else [])) + "."
                    alt = "; ".join(stmts + ([instead] if instead else [])) + "."
                    kind = "fail"
                tokens, seps = self.layout(text, style)
            commands.append(dict(tokens=tokens, seps=seps, alt=alt, kind=kind, background=background))
        for i, c in enumerate(commands):
            # A malformed command has a line of its own.
            if c["kind"] == "bad" and i and "\n" not in commands[i - 1]["seps"][-1]:
                commands[i - 1]["seps"][-1] = "\n"
        case = dict(seed=seed, source=PLANS, commands=commands, end=rng.choice(("eof", "interrupt")),
                    sleep=rng.choice((["exact"], ["exact", "late"], ["exact", "early"], ["early", "late"])))
        if rng.random() < 0.35:
            case["cut"] = rng.randrange(200)
        return case

    def text_only(self):
        return "+never(%d)" % self.rng.randint(0, 9)

    def layout(self, text, style):
        rng = self.rng
        tokens, seps = [], []
        spans = [m.span() for m in TOKEN.finditer(text)]
        for n, (i, j) in enumerate(spans):
            tokens.append(text[i:j])
            last = n == len(spans) - 1
            gap = " " if last else text[j:spans[n + 1][0]]
            if style == "mixed":
                how = rng.choice(("lines", "one", "split"))
            else:
                how = style
            if last:
                if how == "one" or (how == "split" and rng.random() < 0.5):
                    gap = rng.choice((" ", "  ", "\t"))
                else:
                    gap = rng.choice(("\n", "\n", " \n", "\n\n", " // done. \n", "\n  \n# .\n"))
            elif how == "split":
                r = rng.random()
                if r < 0.35:
                    gap = rng.choice(("\n", "\n", " \n  ", "\n\n", " // more\n", "\n\t", " # \"\n", "\n/* x */ "))
                elif r < 0.5 and gap:
                    gap = rng.choice(("  ", "\t", " /* . */ "))
            seps.append(gap)
        return tokens, seps

    def var(self):
        """A variable that is bound already, or a number."""
        rng = self.rng
        if self.bound and rng.random() < 0.6:
            return rng.choice(self.bound)
        return str(rng.randint(0, 4))

    def new(self):
        self.used += 1
        return "X%d" % self.used

    def fid(self):
        self.ids += 1
        return self.ids

    def value(self):
        rng = self.rng
        return rng.choice((self.var(), self.var(), '"a. b"', '"x // y"', '"q\\"r"', "f(%s, a)" % self.var(), "[1, %s]" % self.var(),
                           "1.5", "-3", "%s + 1" % rng.randint(0, 5), '"# ; ."', "a", "true", ".5", "[]", '"é€"'))

    def stmt(self, nest=1):
        rng = self.rng
        k = rng.choice(("p", "p", "bind", "bind", "add", "add", "del", "rep", "query", "query", "test", "goal", "goal", "out", "out",
                        "bg", "if", "for", "while", "wait", "rule", "findall", "print", "use", "nest", "lost", "conj", "neg",
                        "slow", "unbound", "wtest", "send", "partial", "partial", "late"))
        if k == "p" or k == "use":
            return ".p(%d, %s)" % (self.fid(), self.value())
        if k == "bind":
            val = self.value()
            x = self.new()
            if nest:
                self.bound.append(x)
            return "%s = %s" % (x, val)
        if k == "add":
            return "+%s(%s)" % (rng.choice("bd"), rng.randint(0, 9))
        if k == "del":
            return "-%s(%s)" % (rng.choice("bd"), rng.randint(0, 9))
        if k == "rep":
            return "-+e(%d)" % rng.randint(0, 9)
        if k == "query":
            x = self.new()
            if nest:
                self.bound.append(x)
            return rng.choice((".range(5, %s) & %s > 2", ".member(%s, [4, 5]) & not %s = 4", "c(_, %s) & %s = 1",
                               ".length([1, 2], %s) & (%s == 1 | true)")) % (x, x)
        if k == "rule":
            x, y = self.new(), self.new()
            if nest:
                self.bound += [x, y]
            return "r(%s, %s) & %s > 6" % (x, y, x)
        if k == "test" or k == "wtest":
            x = self.new()
            if nest:
                self.bound.append(x)
            return "?t(%s)" % x
        if k == "goal":
            return "!g(%s)" % rng.randint(0, 9)
        if k == "out":
            x = self.new()
            val = self.fid()
            if nest:
                self.bound.append(x)
            return rng.choice(("!out(%d, %s)", "!twice(%d, %s)")) % (val, x)
        if k == "bg":
            return "!!bg(%d)" % (1000 + self.fid())
        if k == "lost":
            if nest and rng.random() < 0.4:
                return "!!bad"
            return "!!tail(%d)" % (1000 + self.fid())
        if k == "send":
            return ".send(human, %s, d(%d))" % (rng.choice(("tell", "untell")), rng.randint(0, 9))
        if k == "if":
            return "if (%s > 2) { %s } else { %s }" % (self.var_num(), self.stmt(0), self.stmt(0)) if nest else "true"
        if k == "for":
            if not nest:
                return "true"
            x = self.new()
            return "for (.range(3, %s)) { .p(%d, %s); %s }" % (x, self.fid(), x, self.stmt(0))
        if k == "while":
            if not nest:
                return "true"
            return "+n(1); while (n(1)) { -n(1); .p(%d, 0); %s }" % (self.fid(), self.stmt(0))
        if k == "partial":
            x, y = self.new(), rng.choice(self.open) if self.open and rng.random() < 0.3 else self.new()
            if nest:
                self.bound.append(x)
                self.open.append(y)
            return rng.choice(("%s = f(%s)", "%s = [1, %s]", "%s = f([%s], a)", "%s = %s")) % (x, y)
        if k == "late":
            if not self.open:
                return "true"
            y = self.open.pop(rng.randrange(len(self.open)))
            # No cycles.
            val = rng.choice(('"a. b"', "f(2, a)", "[1, b]", "-3", "a", "4", "[]", "true"))
            if nest and rng.random() < 0.5:
                self.bound.append(y)
            return "(%s = %s | true)" % (y, val)
        if k == "wait":
            return ".wait(%d)" % rng.choice((10, 125, 1000, 5000))
        if k == "slow":
            return "!slow(%d)" % rng.choice((125, 1000))
        if k == "findall":
            x, y = self.new(), self.new()
            if nest:
                self.bound.append(y)
            return rng.choice((".findall(%s, c(_, %s), %s)", ".findall(%s, r(7, %s), %s)")) % (x, x, y)
        if k == "print":
            return '.print("%s", %s)' % (rng.choice(("text", "x // y", "a.")), self.var())
        if k == "nest":
            return "(%s >= 0 | true) & .p(%d, %s)" % (self.var_num(), self.fid(), self.var())
        if k == "conj":
            return "true & (false | true) & .p(%d)" % self.fid()
        if k == "neg":
            return "not no_such(%s)" % self.var()
        return ".p(%d, %s)" % (self.fid(), self.new())

    def var_num(self):
        return str(self.rng.randint(0, 4))

    # -- execution

    def simulate(self, case, trace=None):
        sim = None
        try:
            try:
                WATCH.idle = 0
                WATCH.active = True
                sim = ConsoleSim(case, trace)
                sim.run()
            finally:
                WATCH.active = False
                STREAMS.input_hook = None
                CLOCK.sleep_hook = None
            return "ok", None, sim
        except (Violation, Broken) as v:
            return "violation", v, sim
        except Inconclusive as i:
            return "inconclusive", i, sim
        except seams.Hang:
            return "violation", Violation("hang", "the console does not return to the prompt"), sim

    def describe(self, case):
        lines, ends = ConsoleSim(case).layout()
        return "\n".join(">>> " + x for x in lines) + "\n// then %s" % case["end"]

    def smaller_session(self, case):
        cs = list(case["commands"])
        for c in self.shrink.chunks(cs):
            yield dict(case, commands=c)
        if case.get("cut") is not None:
            yield dict(case, cut=None)
        if case["sleep"] != ["exact"]:
            yield dict(case, sleep=["exact"])
        for i, c in enumerate(cs):
            if c["kind"] == "bad":
                continue
            if any(s not in ("", " ") for s in c["seps"][:-1]):
                for j, s in enumerate(c["seps"][:-1]):
                    if s not in ("", " "):
                        yield dict(case, commands=cs[:i] + [dict(c, seps=c["seps"][:j] + [" "] + c["seps"][j + 1:])] + cs[i + 1:])
            if c["kind"] == "ok" and "; " in c["alt"] and "{" not in c["alt"]:
                parts = c["alt"][:-1].split("; ")
                for sub in self.shrink.chunks(parts):
                    if sub:
                        text = "; ".join(sub) + "."
                        yield dict(case, commands=cs[:i] + [dict(c, tokens=[text], seps=["\n"], alt=text)] + cs[i + 1:])

