"""The real system under simulation: one Environment of real agents."""
import collections
import io
import re
import sys

from . import ir
from . import seams
from .seams import agentspeak, canon, CLOCK

runtime = agentspeak.runtime

TRIG = {"+": agentspeak.Trigger.addition, "-": agentspeak.Trigger.removal}
GT = {"": agentspeak.GoalType.belief, "!": agentspeak.GoalType.achievement, "?": agentspeak.GoalType.test,
      "how": agentspeak.GoalType.tellHow, "ask": agentspeak.GoalType.askHow}
RTRIG = {v: k for k, v in TRIG.items()}
RGT = {v: k for k, v in GT.items()}

POPULATION = 7       # .spawn fails when that many agents are present

ANSI = re.compile(r"\x1b\[[0-9;]*m")

Message = collections.namedtuple("Message", "sender to trigger goal_type term")


def to_real(t, names):
    k = t[0]
    if k in ("n", "s", "b"):
        return t[1]
    if k == "v":
        if t[1] not in names:
            names[t[1]] = agentspeak.Var()
        return names[t[1]]
    if k == "_":
        return agentspeak.Wildcard()
    if k == "l":
        return agentspeak.Literal(t[1], [to_real(a, names) for a in t[2]], [to_real(a, names) for a in t[3]])
    if k == "t":
        return tuple(to_real(a, names) for a in t[1])
    if k == "c":
        return agentspeak.LinkedList(to_real(t[1], names), to_real(t[2], names))
    raise seams.SimError("host term %r" % (t,))


class SimAgent(runtime.Agent):
    """A host subclass, as the library offers it (agent_cls=). In transport
    mode it hands messages between agents to the simulated network."""

    def __init__(self, env, name, *args, **kwargs):
        super().__init__(env, name, *args, **kwargs)
        world = getattr(env, "world", None)
        if world is not None:
            world.new_agent(name)

    def dump(self):
        world = getattr(self.env, "world", None)
        if world is None or world.dumped is not None:
            return super().dump()
        world.dumped = []
        try:
            super().dump()
            text = "".join(world.dumped)
        finally:
            world.dumped = None
        for group in self.beliefs.values():
            for b in group:
                if agentspeak.asl_repr(b) + "\n" not in text:
                    raise Broken("dump", "%s holds a belief that .dump does not show" % self.name)

    def call(self, trigger, goal_type, term, calling_intention, *args, **kwargs):
        world = getattr(self.env, "world", None)
        if world is not None and world.transport and not world.bypass and \
                world.actor is not None and world.actor is not self:
            world.enqueue(self, trigger, goal_type, term)
            return True
        return super().call(trigger, goal_type, term, calling_intention, *args, **kwargs)

    def step(self):
        world = getattr(self.env, "world", None)
        if world is None or world.driver is None:
            return super().step()
        return world.driver.step(self, super().step)


class DeviceError(Exception):
    pass


FAULT_TYPES = [RuntimeError, OSError, KeyError, ValueError, DeviceError, agentspeak.AslError, IndexError,
               AttributeError, AssertionError, MemoryError, ZeroDivisionError, UnicodeDecodeError]


def make_fault(i):
    t = FAULT_TYPES[i % len(FAULT_TYPES)]
    if t is UnicodeDecodeError:
        return t("utf-8", b"x", 0, 1, "injected")
    if t is OSError:
        return t(28, "injected")
    return t("injected")


class World:
    def __init__(self, transport=False, env=None):
        self.env = env or runtime.Environment()
        self.env.world = self
        self.transport = transport
        self.bypass = False
        self.driver = None       # drives the steps of the real run loops
        self.actor = None
        self.log = []
        self.net = []
        self.order = []          # live agents in creation order (names)
        self.objs = {}           # name -> agent
        self.io_fault = {}       # nth io call from now -> kind
        self.io_calls = 0
        self.stats = collections.Counter()
        self.out = seams.SimOut()
        self.out.fault = self._print_fault
        self.print_faults = {}
        self.prints = 0
        self.dumped = None       # what an agent prints about itself
        self._canon_cache = {}
        if seams.STREAMS.open_hook is None:
            seams.STREAMS.open_hook = self._open
        self.actions = self.make_actions()
        self.case = None

    # -- observation

    def emit(self, *entry):
        self.log.append(entry)

    def take_log(self):
        log = tuple(self.log)
        del self.log[:]
        return log

    def bb(self, agent):
        out = []
        cache = self._canon_cache
        for group in agent.beliefs.values():
            for b in group:
                c = cache.get(id(b))
                if c is None or c[0] is not b:
                    c = (b, canon(b))
                    cache[id(b)] = c
                out.append(c[1])
        s = frozenset(out)
        if len(s) != len(out):
            # Two equal beliefs held at once: not a set any more.
            s = frozenset(out) | {("duplicate",)}
        return s

    # -- probes and host actions

    def make_actions(self):
        # Actions of the host, in two layers over the standard ones.
        base = agentspeak.Actions(agentspeak.ext_stdlib.actions)
        acts = agentspeak.Actions(base)
        world = self

        def own(registry, name, arity, tag):
            """An action that hides others of the same name."""
            @registry.add(name, arity)
            def _own(agent, term, intention):
                names = {}
                memo = {}
                world.emit("own", tag, agent.name, *[canon(agentspeak.freeze(t, intention.scope, memo), names)
                                                     for t in term.args])
                yield

        for name, arity in ((".print", 5), (".member", 3), (".my_name", 2), (".fail", 1), (".concat", 1), (".p", 8)):
            own(acts, name, arity, name)
        own(base, ".print", 6, ".print")
        own(base, ".concat", 2, ".concat")
        own(base, ".lv", None, "low")
        own(base, ".lv", 1, "low1")
        own(base, ".lv", 2, "low2")
        own(acts, ".lv", 2, "high2")
        own(base, ".top", 1, "low1")
        own(base, ".top", 2, "low2")
        own(acts, ".top", None, "high")
        own(acts, ".top", 2, "high2")

        def probe(name):
            @acts.add(name)
            def _probe(agent, term, intention):
                names = {}
                memo = {}
                world.emit(name, agent.name, *[canon(agentspeak.freeze(t, intention.scope, memo), names)
                                               for t in term.args])
                yield

        for name in (".p", ".q", ".r"):
            probe(name)

        @acts.add(".io")
        def _io(agent, term, intention):
            names = {}
            memo = {}
            args = [canon(agentspeak.freeze(t, intention.scope, memo), names) for t in term.args]
            world.io_calls += 1
            kind = world.io_fault.pop(world.io_calls, None)
            world.emit(".io", agent.name, *args, "ok" if kind is None else "err")
            if kind is not None:
                world.stats["fault:device"] += 1
                raise make_fault(kind)
            yield

        @acts.add(".raise", 0)
        def _raise(agent, term, intention):
            world.emit(".raise", agent.name)
            raise RuntimeError("raised")
            yield

        @acts.add_function(".fn", (int, None))
        def _fn(i, value):
            # The acting agent is not passed: only what was declared.
            world.emit(".fn", canon(i), canon(value))
            return (i, value)

        @acts.add_function(".two", (None, None))
        def _two(left, right):
            # May contain unbound variables, possibly the same.
            world.emit(".two", canon((left, right)))
            return (left, right)

        @acts.add_function(".conv", (float, runtime.Agent, agentspeak.asl_str, tuple))
        def _conv(f, agent, s, t):
            world.emit(".conv", agent.name, f if type(f) is float else repr(f), s if type(s) is str else repr(s),
                       tuple(canon(x) for x in t) if type(t) is tuple else repr(t))
            return agentspeak.Literal("conv", (f, s, len(t)))

        @acts.add_predicate(".pred", (int, runtime.Environment, int))
        def _pred(a, env, b):
            world.emit(".pred", env is world.env, a if type(a) is int else repr(a), b)
            return a < b

        @acts.add_function(".lit", (agentspeak.Literal, runtime.Environment, object, runtime.Agent))
        def _lit(literal, env, x, agent):
            world.emit(".lit", agent.name, env is world.env, canon(literal), canon(x))
            return literal.functor

        @acts.add_procedure(".proc", (str,))
        def _proc(s):
            world.emit(".proc", s)
            return False  # A procedure's result is ignored.

        @acts.add(".gen", 3)
        def _gen(agent, term, intention):
            gid = float(agentspeak.grounded(term.args[0], intention.scope))
            n = int(agentspeak.grounded(term.args[1], intention.scope))
            choicepoint = object()
            for i in range(n):
                world.emit("gen", agent.name, gid, i)
                intention.stack.append(choicepoint)
                if agentspeak.unify(term.args[2], i, intention.scope, intention.stack):
                    yield
                agentspeak.reroll(intention.scope, intention.stack, choicepoint)
            world.emit("gen-end", agent.name, gid)

        @acts.add(".post", 4)
        def _post(agent, term, intention):
            ident, to, kind, content = term.args
            world.emit(".post", agent.name, canon(agentspeak.freeze(ident, intention.scope, {})))
            target = world.env.agents[world.resolve_name(to.functor)]
            trig, gt = {"tell": ("+", ""), "untell": ("-", ""), "achieve": ("+", "!"), "unachieve": ("-", "!"),
                        "test": ("+", "?")}[kind.functor]
            world.bypass = True
            try:
                target.call(TRIG[trig], GT[gt], agentspeak.freeze(content, intention.scope, {}), runtime.Intention())
            finally:
                world.bypass = False
            yield

        @acts.add(".spawn", 1)
        def _spawn(agent, term, intention):
            # Creates an agent from the source with the given index.
            k = int(agentspeak.grounded(term.args[0], intention.scope))
            world.emit(".spawn", agent.name, k)
            if len(world.env.agents) >= POPULATION:
                raise agentspeak.AslError("population")
            actor = world.actor
            world.actor = None
            try:
                world.build(k)
            finally:
                world.actor = actor
            yield

        @acts.add(".despawn", 1)
        def _despawn(agent, term, intention):
            name = agentspeak.grounded(term.args[0], intention.scope).functor
            world.emit(".despawn", agent.name, name)
            if name != agent.name:
                world.kill(name)
            yield

        return acts

    def resolve_name(self, name):
        return name if name in self.env.agents else sorted(self.env.agents)[0]

    def _open(self, name, *args, **kwargs):
        """The only file written is the one of .control_flow."""
        if name != "control_flow.dot" or self.actor is None:
            return seams.real_open(name, *args, **kwargs)
        self.io_calls += 1
        kind = self.io_fault.pop(self.io_calls, None)
        self.emit("graph", self.actor.name, "ok" if kind is None else "err")
        if kind is not None:
            self.stats["fault:device"] += 1
            raise OSError(28, "injected")
        return io.StringIO()

    def _print_fault(self, text):
        text = ANSI.sub("", text)
        if self.dumped is not None:
            self.dumped.append(text)
            return
        head, nl, tail = text.rpartition("\n")
        if not nl:
            self._line += text
            return
        line, self._line = self._line + head, tail
        if line == "Graph dumped to control_flow.dot":
            return
        self.prints += 1
        kind = self.print_faults.pop(self.prints, None)
        name, _, shown = line.lstrip(" ").partition(" ")
        self.emit("print", name, shown, "ok" if kind is None else "err")
        if kind is not None:
            self.stats["fault:output"] += 1
            raise OSError(32, "injected")

    _line = ""

    # -- operations

    def enqueue(self, to, trigger, goal_type, term):
        self.stats["net:sent"] += 1
        gt = RGT[goal_type]
        if gt in ("how", "ask"):
            self.emit("net", self.actor.name, to.name, RTRIG[trigger], gt)
        else:
            self.emit("net", self.actor.name, to.name, RTRIG[trigger], gt, canon(term))
        self.net.append(Message(self.actor.name, to.name, trigger, goal_type, term))

    def build(self, k, n=None):
        """Loads source k (n copies). Returns the names of the new agents."""
        a = self.case["agents"][k]
        text = a.get("text") or ir.agent(a)
        source = agentspeak.StringSource(a.get("source") or a["name"] + ".asl", text)
        kwargs = {}
        if a.get("given_name"):
            kwargs["name"] = a["given_name"]
        before = dict(self.env.agents)
        try:
            if n is None:
                agents = [self.env.build_agent(source, self.actions, agent_cls=SimAgent, **kwargs)]
            else:
                agents = self.env.build_agents(source, n, self.actions, agent_cls=SimAgent, **kwargs)
        finally:
            for name, agent in self.env.agents.items():
                if name not in self.objs:
                    self.objs[name] = agent
                    self.order.append(name)
        for name, agent in before.items():
            if self.env.agents.get(name) is not agent:
                raise Broken("name", "agent %s was replaced by a new agent" % name)
        if len(agents) != (1 if n is None else n):
            raise Broken("count", "%d agents instead of %s" % (len(agents), n))
        for agent in agents:
            if self.objs.get(agent.name) is not agent:
                raise Broken("name", "agent %s is not registered under its name" % agent.name)
        return [agent.name for agent in agents]

    def new_agent(self, name):
        self.emit("new", name)

    def kill(self, name):
        if name in self.env.agents:
            del self.env.agents[name]
            self.order.remove(name)
            del self.objs[name]

    def guard(self, actor, f):
        """Runs f as the given acting agent. Errors become observations."""
        saved = sys.stdout
        sys.stdout = self.out
        self.actor = actor
        try:
            return f()
        except agentspeak.AggregatedError:
            self.emit("err", actor.name if actor is not None else "host")
        except agentspeak.AslError:
            self.emit("err", "host") if actor is None else self.emit("raw", "AslError")
        except (seams.SimError, Broken):
            raise
        except seams.Hang:
            raise
        except Exception as err:
            if actor is None:
                # Errors of actions and comparisons reach the host that posts.
                self.emit("err", "host")
            else:
                self.emit("raw", type(err).__name__, str(err)[:200])
        finally:
            self.actor = None
            sys.stdout = saved

    def step(self, name):
        agent = self.objs[name]
        return self.guard(agent, agent.step)

    def host(self, name, trig, gt, t):
        agent = self.objs[name]
        real = to_real(t, {})
        self.guard(None, lambda: agent.call(TRIG[trig], GT[gt], real, runtime.Intention()))

    def deliver(self, msg):
        agent = self.objs[msg.to]
        saved = sys.stdout
        sys.stdout = self.out
        # The receiver is the acting agent: its replies go through the network.
        self.actor = agent
        try:
            # Skip the transport.
            runtime.Agent.call(agent, msg.trigger, msg.goal_type, msg.term, runtime.Intention())
        except Exception:
            self.emit("err", "host")
        finally:
            self.actor = None
            sys.stdout = saved


class Broken(BaseException):
    """A directly observed violation."""

    def __init__(self, kind, text):
        super().__init__(text)
        self.kind = kind
