"""The real run loops (of an environment or of one agent) under a simulated
clock. Each step inside them is still checked against the model; in addition
every sleep and the return of the loop are judged."""
import random
import sys

from . import model
from . import seams
from . import sim as sim_mod
from .model import Inconclusive
from .seams import CLOCK, agentspeak
from .sim import Sim, Violation, WATCH, pending

LIMIT = 2500        # steps of one case
SPIN_SLEEPS = 250   # sleeps without any progress
SPIN_STEPS = 40     # fruitless rounds without a sleep


class Unwind(BaseException):
    """Leaves the code under test."""


class Driver:
    """Sits between a real run loop and the agents."""

    def __init__(self, sim, only):
        self.sim = sim
        self.world = sim.world
        self.only = only         # the agent that is run alone, or None
        self.stop = None
        self.stepping = False
        self.sleeps = 0          # since the last progress
        self.idle = 0            # fruitless steps since the last sleep
        self.reads = []          # clock readings since the last step
        self.steps = {}          # name -> time of the last step
        self.due = {}            # name -> agents that are to be stepped before it
        self.known = {}
        self.begin = CLOCK.now
        self.errors = 0

    def guarded(self, f):
        try:
            return f()
        except (Violation, Inconclusive, RecursionError, seams.SimError, sim_mod.Broken, seams.Hang) as err:
            self.stop = err
            raise Unwind()

    def step(self, agent, real):
        if self.stepping:
            raise seams.SimError("nested step")
        return self.guarded(lambda: self._step(agent, real))

    def _step(self, agent, real):
        sim, w = self.sim, self.world
        name = agent.name
        sim.budget -= 1
        if sim.budget < 0:
            sim.unsettled()
            sim.budget = 300
        if w.objs.get(name) is not agent:
            raise Violation("removed", "agent %s is run, but was removed" % name)
        if self.only is not None and agent is not self.only:
            raise Violation("other", "agent %s is run with %s" % (name, self.only.name))
        self.fairness(name)
        sim.jitter()
        self.steps[name] = CLOCK.now
        self.stepping = True
        try:
            with WATCH:
                ret = w.guard(agent, real)
        finally:
            self.stepping = False
        failed = any(e[0] == "err" and e[1] == name for e in w.log)
        sim.stepped(["step", name], name, ret)
        if self.only is None:
            # New agents join with the round after the one that created them.
            known = self.known.get(name, ())
            self.due[name] = {n for n in w.order if n != name and n in known and self.can_go_on(n)}
            self.known[name] = set(w.order)
        del self.reads[:]
        sim.jitter()
        if ret or failed:
            self.sleeps = 0
            self.idle = 0
        else:
            self.idle += 1
            if self.idle > SPIN_STEPS * (len(w.order) + 1):
                raise Violation("spin", "%d fruitless steps without a sleep" % self.idle)
        if failed:
            self.errors += 1
            raise agentspeak.AggregatedError(1, 0)
        return ret

    def fairness(self, name):
        """In rounds: whoever can go on is stepped before the same agent is stepped again."""
        for other in self.due.pop(name, ()):
            if self.can_go_on(other):
                raise Violation("unfair", "%s is stepped again before %s, which can go on" % (name, other))
        for names in self.due.values():
            names.discard(name)

    def can_go_on(self, name):
        if name not in self.world.objs:
            return False
        return not any(model.quiescent(self.sim.menv, st, name, CLOCK.now) for st in self.sim.frontier)

    def read(self):
        if self.stepping:
            return
        self.guarded(self.sim.jitter)
        self.reads.append(CLOCK.now)

    def rest(self, what):
        """The loop believes that nobody can go on."""
        sim, w = self.sim, self.world
        names = [self.only.name] if self.only is not None else list(w.order)
        for name in names:
            if name not in w.objs:
                continue
            at = self.steps.setdefault(name, self.begin)
            if not any(model.quiescent(sim.menv, st, name, at) for st in sim.frontier):
                raise Violation(what + "-early", "the run loop %s although %s can go on" % (
                    "sleeps" if what == "sleep" else "returns", name))
        # Some state must explain that all of them rest.
        left = [st for st in sim.frontier if all(
            model.quiescent(sim.menv, st, n, self.steps[n]) for n in names if n in w.objs)]
        if not left:
            raise Violation(what + "-early", "the run loop %s although somebody can go on" % (
                "sleeps" if what == "sleep" else "returns"))
        return names, left

    def sleep(self, seconds):
        if self.stepping:
            raise seams.SimError("sleep within a step")
        self.guarded(lambda: self._sleep(seconds))
        if self.interrupt:
            self.interrupt = False
            raise KeyboardInterrupt()

    interrupt = False

    def _sleep(self, seconds):
        sim = self.sim
        names, states = self.rest("sleep")
        # Waits that are over for the loop or not must not be passed over.
        first = CLOCK.now if not self.reads else min(self.reads)
        ok = False
        for st in states:
            d = [until for name, a in st.ags if name in names for until, ripe in pending(a)]
            if d and (seconds <= 0 or first + seconds <= min(d) or model.near(first + seconds, min(d)) or
                      seconds - (min(d) - first) < 1e-6):
                ok = True
                break
        if not ok:
            raise Violation("oversleep", "sleep of %r at %r with deadlines %s" % (
                seconds, first, sorted({until for st in states for n, a in st.ags for until, _ in pending(a)})[:4]))
        self.sleeps += 1
        self.idle = 0
        if self.sleeps > SPIN_SLEEPS:
            raise Violation("spin", "%d sleeps without progress" % self.sleeps)
        self.interrupt = sim.asleep(seconds)
        del self.reads[:]

    def returned(self):
        sim = self.sim
        names, states = self.rest("return")
        if not any(all(not pending(a) for n, a in st.ags if n in names) for st in states):
            raise Violation("return-early", "the run loop returns although a deadline is pending")


class RunSim(Sim):
    def __init__(self, case, trace=None, mode=None):
        super().__init__(case, trace, mode)
        c = case["driver"]
        self.clock = c
        self.rng = random.Random(c.get("seed", 0))
        tick = c.get("tick", -20)
        self.tick = 0.0 if tick is None else 2.0 ** tick    # None: a coarse clock
        self.faults = True
        self.budget = LIMIT
        CLOCK.now = float(c.get("epoch", 1000.0))
        self.start = CLOCK.now

    def forward(self, seconds):
        before = CLOCK.now
        self.advance(seconds)
        if CLOCK.now <= before and seconds > 0:
            CLOCK.now = before + max(self.tick, 2.0 ** -10)

    def jitter(self):
        """Time passes between any two operations."""
        self.forward(self.tick)
        if self.faults and self.rng.random() < self.clock.get("jitter", 0):
            self.forward(self.rng.choice((0.0009765625, 0.0625, 0.125, 0.5, 3.0)))
            self.stats["fault:stall"] += 1
        if CLOCK.now < 0 and self.faults and self.rng.random() < self.clock.get("snap", 0):
            # Waits that begin now end when the clock is zero.
            at = [-x for x in (0.125, 0.25, 0.5, 1.0, 2.0, 3.5) if CLOCK.now < -x]
            if at:
                self.forward(self.rng.choice(at) - CLOCK.now)

    def asleep(self, seconds):
        """The sleep as the operating system provides it. True: interrupted."""
        c, rng = self.clock, self.rng
        woken = False
        kind = "exact"
        if self.faults:
            r = rng.random()
            for k in ("early", "late", "at once", "back", "interrupt"):
                r -= c.get(k, 0)
                if r < 0:
                    kind = k
                    break
        if kind == "early":
            self.forward(seconds * rng.choice((0.25, 0.5, 0.75)))
        elif kind == "late":
            self.forward(seconds + rng.choice((0.0009765625, 0.015625, 1.0, 10.0)))
        elif kind == "back":
            self.forward(seconds * 0.5)
            self.advance(-rng.choice((0.125, 1.0, 5.0)))
        elif kind == "interrupt":
            self.forward(seconds * 0.5)
            woken = True
        elif kind == "exact":
            self.forward(seconds)
        if kind != "exact":
            self.stats["fault:sleep " + kind] += 1
        self.forward(self.tick or 2.0 ** -20)
        self.stats["sleeps"] += 1
        if self.trace is not None:
            self.trace.append((["sleep", seconds, kind], (), None, CLOCK.now))
        return woken

    def loop(self, op, only, f):
        """Runs one of the real loops until it returns."""
        d = Driver(self, only)
        w = self.world
        w.driver = d
        CLOCK.read_hook = d.read
        CLOCK.sleep_hook = d.sleep
        self.stats["run loops"] += 1
        result = "returned"
        try:
            f()
        except Unwind:
            pass
        except agentspeak.AggregatedError:
            result = "error"
        except KeyboardInterrupt:
            result = "interrupt"
        except (Violation, Inconclusive, seams.SimError, sim_mod.Broken, seams.Hang, RecursionError) as err:
            d.stop = d.stop or err
        except Exception as err:
            d.stop = d.stop or Violation("run-loop", "the run loop fails: %s: %s" % (type(err).__name__, err))
        finally:
            w.driver = None
            CLOCK.read_hook = CLOCK.sleep_hook = None
        if d.stop is not None:
            raise d.stop
        if self.trace is not None:
            self.trace.append((op, (), result, CLOCK.now))
        if result == "error" and not d.errors:
            raise Violation("run-loop", "the run loop reports an error that no step reported")
        if result == "returned":
            d.returned()
        self.stats["run loop " + result] += 1
        return result

    def execute(self, op):
        k = op[0]
        if k == "envrun":
            self.loop(op, None, self.world.env.run)
        elif k in ("runagent", "agentrun"):
            name = self.live(op[1])
            if name is None:
                return
            agent = self.world.objs[name]
            if k == "runagent":
                self.loop(op, agent, lambda: self.world.env.run_agent(agent))
            else:
                self.plain(op, agent)
        else:
            super().execute(op)

    def plain(self, op, agent):
        """Agent.run: steps until nothing can be done now."""
        d = {}

        def f():
            agent.run()
            d["back"] = True
        driver = PlainDriver(self, agent)
        self.with_driver(driver, f)
        if d and agent.name in self.world.objs:
            driver.rest("return")

    def with_driver(self, d, f):
        w = self.world
        w.driver = d
        CLOCK.read_hook = d.read
        CLOCK.sleep_hook = d.sleep
        try:
            f()
        except Unwind:
            pass
        except agentspeak.AggregatedError:
            pass
        finally:
            w.driver = None
            CLOCK.read_hook = CLOCK.sleep_hook = None
        if d.stop is not None:
            raise d.stop

    def settle(self):
        w = self.world
        w.io_fault.clear()
        w.print_faults.clear()
        self.faults = False
        self.budget = max(self.budget, 0) + 600
        for _ in range(200):
            while w.net:
                self.net(["net", 0, "deliver"], 0, "deliver")
            if self.loop(["envrun"], None, w.env.run) == "returned" and not w.net:
                break
        else:
            raise Inconclusive("long execution")
        self.finished()


class PlainDriver(Driver):
    def _sleep(self, seconds):
        raise Violation("sleep", "sleep while an agent is run without waiting")


class Engine:
    """Cases of the run loop property."""

    def __init__(self):
        from . import gen, ir, shrink
        self.gen, self.ir = gen, ir
        self.stages = [shrink.smaller_ops, smaller_clock, shrink.smaller_program]

    def generate(self, seed):
        return self.gen.generate("C11", seed)

    def simulate(self, case, trace=None):
        return sim_mod.simulate(case, trace)

    def describe(self, case):
        return "\n".join("// %s\n%s" % (a["name"], self.ir.agent(a)) for a in case["agents"])


def smaller_clock(case):
    d = case["driver"]
    for k in list(d):
        if k != "seed":
            yield dict(case, driver={x: y for x, y in d.items() if x != k})
