"""Runs one case: real system in lockstep with the set of model states that
explain everything observed so far."""
import collections
import hashlib
import signal

from . import model
from . import seams
from . import world as world_mod
from .model import Ag, Fail, Inconclusive, Msg, NOENV, Plan, Rule, State, Tx, EMPTY, conts
from .seams import CLOCK, SimError
from .world import Broken, GT, POPULATION, RTRIG, TRIG, World

LAG = 40            # silent model steps allowed before the next observation
# The search runs in a fast mode first. A violation is believed only if the
# wide mode finds it, too.
FAST = dict(ahead=1, cap=32, nodes=6000, lossy=True)
WIDE = dict(ahead=2, cap=600, nodes=60000, lossy=False)
STALL = 300         # silent real steps before progress is questioned
SETTLE = 2500       # operations allowed in the settle phase


class Violation(Exception):
    def __init__(self, kind, detail):
        super().__init__("%s: %s" % (kind, detail))
        self.kind = kind
        self.detail = detail


class Budget:
    def __init__(self, n):
        self.left = n

    def spend(self):
        self.left -= 1
        if self.left < 0:
            raise Inconclusive("search budget")


class Watch:
    """Notices real code that does not return (in terms of CPU time)."""
    LIMIT = 6

    def __init__(self):
        self.ticks = None
        self.idle = 0
        self.active = False

    def __enter__(self):
        self.ticks = 0
        self.idle = 0

    def __exit__(self, *args):
        self.ticks = None

    def tick(self, *_):
        if self.ticks is not None:
            self.ticks += 1
            if self.ticks > self.LIMIT:
                self.ticks = None
                raise seams.Hang()
        elif self.active:
            self.idle += 1
            if self.idle > 45:
                self.idle = 0
                raise Inconclusive("search time")

    def install(self):
        signal.signal(signal.SIGVTALRM, self.tick)
        signal.setitimer(signal.ITIMER_VIRTUAL, 1.0, 1.0)

    def remove(self):
        # Without this the timer would end the interpreter during its shutdown.
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, signal.SIG_IGN)


WATCH = Watch()


class MEnv:
    def __init__(self, case):
        self.case = case
        self.transport = case.get("transport", False)
        self.events = {k: model.tup(v) for k, v in case.get("events", {}).items()}
        self.texts = {k: (self.plan(v) if v is not None else None) for k, v in case.get("texts", {}).items()}
        self.names = dict(case.get("names", {}))
        self.agents = [self.compile(a) for a in case["agents"]]

    def plan(self, p):
        return Plan(0, p["trig"], p["gt"], model.tup(p["head"]),
                    model.tup(p["context"]) if p.get("context") is not None else ("true",),
                    model.tup(p["body"]) if p.get("body") else (), p.get("label"), None)

    def compile(self, a):
        return dict(
            beliefs=[model.tup(b) for b in a.get("beliefs", ())],
            rules=tuple(Rule(model.tup(h), model.tup(q)) for h, q in a.get("rules", ())),
            goals=[model.tup(g) for g in a.get("goals", ())],
            plans=tuple(self.plan(p) for p in a.get("plans", ())))

    def parse_event(self, text):
        if text not in self.events:
            raise Inconclusive("event text")
        return self.events[text]

    def parse_plan(self, content):
        if content[0] == "plan":
            return content[1]
        if content[0] != "s":
            raise Fail("text expected")
        if content[1] not in self.texts:
            raise Inconclusive("plan text")
        return self.texts[content[1]]

    def parse_name(self, content):
        if content[0] != "s":
            raise Fail("text expected")
        return self.names.get(content[1])

    def resolve(self, tx, name):
        return name if name in tx.ags else sorted(tx.ags)[0]

    def roster(self, tx):
        return list(tx.ags)

    def build(self, tx, k, host):
        """One new agent from source k. The name is chosen by the system."""
        name = tx.guided("new")
        if name in tx.ags:
            raise model.Prune()
        k %= len(self.agents)
        a = self.agents[k]
        base = self.case["agents"][k]["name"]
        if name != base and base not in tx.ags:
            # The name of the source is taken whenever possible.
            raise model.Prune()
        tx.ags[name] = Ag(name, frozenset(), (), a["plans"], a["rules"])
        try:
            for b in a["beliefs"]:
                tx.call(name, "+", "", b, NOENV, None, True)
            for g in a["goals"]:
                tx.call(name, "+", "!", g, NOENV, None, True)
        except Fail:
            del tx.ags[name]
            raise

    def spawn(self, tx, ag, name, args, env, ok):
        if name == ".spawn":
            k = int(model.num(model.grounded(args[0], env)))
            tx.emit(".spawn", ag, k)
            if len(tx.ags) >= POPULATION:
                raise Fail("population")
            self.build(tx, k, False)
            return ok
        target = model.grounded(args[0], env)[1]
        tx.emit(".despawn", ag, target)
        if target != ag:
            tx.ags.pop(target, None)
        return ok


def pending(a):
    return [it.stack[-1].wait[1:] for it in a.ints if it.stack[-1].wait is not None and
            it.stack[-1].wait[1] is not None]


def deadline_ok(a, real, now):
    """The earliest deadline; waits that have expired may be released already."""
    d = pending(a)
    left = [x for x, ripe in d if not (ripe or x < now or model.near(x, now))]
    if real is None:
        return not left
    return any(model.near(x, real) for x, _ in d) and all(x >= real or model.near(x, real) for x in left)


class Sim:
    def __init__(self, case, trace=None, mode=None):
        self.case = case
        self.mode = mode or FAST
        self.progress = {}
        self.menv = MEnv(case)
        seams.begin_run(case.get("seed", 0))
        self.world = World(transport=case.get("transport", False))
        self.world.case = case
        for k, v in case.get("io_faults", {}).items():
            self.world.io_fault[int(k)] = v
        for k, v in case.get("print_faults", {}).items():
            self.world.print_faults[int(k)] = v
        self.frontier = [State((), 0, ())]
        self.stats = collections.Counter()
        self.trace = trace
        self.sig_hash = hashlib.blake2b(digest_size=12)
        self.actors = set()
        self.switches = 0
        self.silent = collections.Counter()
        CLOCK.now = float(case.get("epoch", 1000.0))
        self.start = CLOCK.now
        self.time_covered = 0.0
        self.bbs = {}
        self.max_frontier = 1
        self.visible = 0

    # -- bookkeeping

    def note(self, op, log, ret=None):
        self.stats["ops"] += 1
        if log:
            self.visible += len(log)
            self.sig_hash.update(repr((op[0], log)).encode("utf-8", "surrogatepass"))
            for e in log:
                self.stats["seen:%s" % e[0]] += 1
            who = log[0][1] if len(log[0]) > 1 else None
            if who != self.last_who:
                self.switches += 1
                self.last_who = who
        if self.trace is not None:
            self.trace.append((op, log, ret, CLOCK.now))
        if self.case.get("texts") or self.case.get("names"):
            for a in self.world.objs.values():
                if sum(map(len, a.plans.values())) > 150:
                    # Agents that ask each other double what they know.
                    raise Inconclusive("library growth")
        for entry in log:
            if entry[0] == "raw":
                raise Violation("raw-exception", "%s: undocumented exception %s" % (op, entry))

    def settle_frontier(self, states, op, log, extra=None):
        if not states:
            raise Violation("refinement", "%s: no model execution explains %r%s; belief bases %s; deadline %s" % (
                op, log, "" if extra is None else " returning %r" % (extra,),
                self.show_bbs(), self.last_deadline))
        self.frontier = list(states)
        if len(states) > self.mode["cap"]:
            if not self.mode["lossy"]:
                raise Inconclusive("too many model states")
            # Keep those that have done the most.
            self.frontier.sort(key=states.get, reverse=True)
            del self.frontier[self.mode["cap"]:]
        self.progress = {s: states[s] for s in self.frontier}
        self.max_frontier = max(self.max_frontier, len(self.frontier))

    def show_bbs(self):
        return {n: sorted(map(repr, b)) for n, b in self.bbs.items()}

    overtime = False
    last_deadline = None
    last_who = None

    @property
    def sig(self):
        return self.sig_hash.hexdigest()

    @property
    def nontrivial(self):
        faults = sum(v for k, v in self.stats.items() if k.startswith("fault:"))
        return self.visible >= 8 and (self.switches >= 2 or faults > 0 or self.stats["host events"] > 0)

    def observe(self):
        w = self.world
        self.bbs = {name: w.bb(w.objs[name]) for name in w.order}
        return self.bbs

    def bb_match(self, st):
        bbs = self.bbs
        if len(st.ags) != len(bbs):
            return False
        for name, a in st.ags:
            b = bbs.get(name)
            if b is None or a.bb != b:
                return False
        return True

    # -- operations

    def atomic(self, op, f):
        """An operation of the environment that the model does in one go."""
        log = self.world.take_log()
        self.note(op, log)
        self.observe()
        budget = Budget(self.mode["nodes"])
        out = {}
        for st in self.frontier:
            for s in model.atomically(self.menv, st, log, CLOCK.now, budget, f):
                if self.bb_match(s):
                    out[s] = max(out.get(s, 0), self.progress.get(st, 0))
        self.settle_frontier(out, op, log)

    def create(self, op, k, n):
        k %= len(self.case["agents"])

        def f():
            self.world.build(k, n)
        with WATCH:
            self.world.guard(None, f)

        def g(tx):
            before = set(tx.ags)
            try:
                for _ in range(1 if n is None else n):
                    self.menv.build(tx, k, True)
            except Fail:
                # All or none.
                for name in [x for x in tx.ags if x not in before]:
                    del tx.ags[name]
                tx.emit("err", "host")
        self.atomic(op, g)
        self.stats["agents"] += 1 if n is None else n

    def host(self, op, name, trig, gt, t):
        t = model.tup(t)
        with WATCH:
            self.world.host(name, trig, gt, t)

        def g(tx):
            try:
                tx.call(name, trig, gt, t, NOENV, None, False)
            except Fail:
                tx.emit("err", "host")
        self.atomic(op, g)
        self.stats["host events"] += 1

    def net(self, op, i, what):
        w = self.world
        if not w.net:
            return
        # Messages of one sender to one receiver stay in order unless told otherwise.
        i %= len(w.net)
        msg = w.net[i]
        if what == "dup":
            w.net.insert(i, msg)
            self.stats["fault:dup"] += 1
        elif what == "drop":
            del w.net[i]
            self.stats["fault:drop"] += 1
        else:
            if any(m.sender == msg.sender and m.to == msg.to for m in w.net[:i]):
                self.stats["fault:reorder"] += 1
            elif i:
                self.stats["fault:overtake"] += 1
            del w.net[i]
            if msg.to in w.objs:
                with WATCH:
                    w.deliver(msg)
            else:
                self.stats["fault:receiver gone"] += 1

        def g(tx):
            m = tx.net[i]
            if what == "dup":
                tx.net.insert(i, m)
            elif what == "drop":
                del tx.net[i]
            else:
                del tx.net[i]
                if m.to in tx.ags:
                    try:
                        tx.deliver(m)
                    except Fail:
                        tx.emit("err", "host")
        self.atomic(op, g)

    def dump(self, op, name):
        """The host looks at an agent. Nothing happens."""
        w = self.world
        with WATCH:
            w.guard(None, w.objs[name].dump)
        self.atomic(op, lambda tx: None)
        self.stats["inspections"] += 1

    def kill(self, op, name):
        self.world.kill(name)

        def g(tx):
            tx.ags.pop(name, None)
        self.atomic(op, g)
        self.stats["fault:agent removed"] += 1

    def advance(self, seconds):
        if seconds < 0:
            # A waiter whose deadline had passed may or may not have been
            # released already.
            now = CLOCK.now
            out = []
            for st in self.frontier:
                ags = []
                for name, a in st.ags:
                    ints = []
                    for it in a.ints:
                        top = it.stack[-1]
                        if top.wait is not None and top.wait[1] is not None and top.wait[1] < now:
                            it = it._replace(stack=it.stack[:-1] + (top._replace(
                                wait=(top.wait[0], top.wait[1], True)),))
                        ints.append(it)
                    ags.append((name, a._replace(ints=tuple(ints))))
                out.append(State(tuple(ags), st.next, st.net))
            self.progress = {new: self.progress.get(old, 0) for old, new in zip(self.frontier, out)}
            self.frontier = list(self.progress)
            self.stats["fault:clock back"] += 1
        else:
            self.time_covered += seconds
        CLOCK.now += seconds

    def step(self, op, name):
        w = self.world
        with WATCH:
            ret = w.step(name)
        return self.stepped(op, name, ret)

    def stepped(self, op, name, ret):
        """The agent has been stepped; is there a model execution like it?"""
        w = self.world
        log = w.take_log()
        self.note(op, log, ret)
        agent = w.objs.get(name)
        deadline = agent.shortest_deadline() if agent is not None else None
        self.last_deadline = deadline
        before = self.bbs
        self.observe()
        changed = before != self.bbs
        if not log and not changed and ret is False:
            self.silent[name] = 0
        budget = Budget(self.mode["nodes"])
        out = {}
        now = CLOCK.now
        failed = any(e[0] == "err" for e in log)
        for st in self.frontier:
            self.search(st, name, log, now, budget, out, ret, deadline, failed)
        self.settle_frontier(out, op, log, ret)
        if log or changed:
            self.silent[name] = 0
        elif ret:
            self.silent[name] += 1
            if self.silent[name] % STALL == 0:
                self.check_progress(op, name)
        return ret

    def search(self, st, name, log, now, budget, out, ret, deadline, failed):
        menv = self.menv
        seen = {(st, 0): 0}
        done = self.progress.get(st, 0)
        max_ahead = self.mode["ahead"]
        todo = [(st, 0, 0, 0, done)]
        n = len(log)
        while todo:
            s, pos, silent, ahead, done = todo.pop()
            if pos == n:
                ok = self.bb_match(s)
                if ok:
                    a = dict(s.ags).get(name)
                    if a is not None and not deadline_ok(a, deadline, now):
                        ok = False
                if ok and ret is False and not model.quiescent(menv, s, name, now):
                    ok = False
                if ok:
                    out[s] = max(out.get(s, 0), done)
                if ok or ahead:
                    if ahead >= max_ahead or ret is False:
                        continue
                    next_ahead = ahead + 1
                else:
                    next_ahead = 0
            else:
                next_ahead = 0
            if silent >= LAG:
                continue
            if not any(x[0] == name for x in s.ags):
                continue
            for s2, pos2 in model.successors(menv, s, name, log, pos, now, budget):
                if pos == n and next_ahead and not same_bbs(s, s2):
                    continue
                key = (s2, pos2)
                rank = 0 if pos2 != pos else silent + 1
                old = seen.get(key)
                score = rank + 100 * next_ahead
                if old is not None and old <= score:
                    continue
                seen[key] = score
                todo.append((s2, pos2, rank, next_ahead, done + 1))

    def check_progress(self, op, name):
        """The agent claims to work, but nothing can be seen of it."""
        budget = Budget(self.mode["nodes"])
        for st in self.frontier:
            s = st
            for _ in range(150):
                if model.quiescent(self.menv, s, name, CLOCK.now):
                    break
                succ = list(model.successors(self.menv, s, name, (), 0, CLOCK.now, budget))
                succ = [x for x in succ if same_bbs(s, x[0])]
                if not succ:
                    break
                s = succ[0][0]
            else:
                return
        raise Violation("no-progress", "%s: %d steps of %s without effect while work is %s" % (
            op, self.silent[name], name, "left or none"))

    # -- whole case

    def live(self, i):
        order = self.world.order
        return order[i % len(order)] if order else None

    def execute(self, op):
        k = op[0]
        if k == "step":
            name = self.live(op[1])
            if name is not None:
                self.step(op, name)
        elif k == "run":
            name = self.live(op[1])
            for _ in range(op[2]):
                if name not in self.world.objs or not self.step(op, name):
                    break
        elif k == "adv":
            self.advance(op[1] / 1000.0)
            self.stats["fault:clock"] += 1
        elif k in ("jump", "jumpeq"):
            # Just past, or exactly at, the earliest deadline.
            d = [self.world.objs[n].shortest_deadline() for n in self.world.order]
            d = [x for x in d if x is not None]
            if d:
                delta = min(d) - CLOCK.now + (0.125 if k == "jump" else 0.0)
                if delta > 0:
                    self.advance(delta)
                    self.stats["fault:clock jump"] += 1
        elif k == "host":
            name = self.live(op[1])
            if name is not None:
                self.host(op, name, op[2], op[3], op[4])
        elif k == "dump":
            name = self.live(op[1])
            if name is not None:
                self.dump(op, name)
        elif k == "net":
            self.net(op, op[1], op[2])
        elif k == "create":
            if len(self.world.order) < 9:
                self.create(op, op[1], op[2])
        elif k == "kill":
            name = self.live(op[1])
            if name is not None and len(self.world.order) > 1:
                self.kill(op, name)
        elif k == "arm":
            w = self.world
            if op[1] == "io":
                w.io_fault[w.io_calls + 1 + op[2] % 4] = op[2]
            else:
                w.print_faults[w.prints + 1 + op[2] % 3] = op[2]
        else:
            raise SimError("unknown operation %r" % (op,))

    def run(self):
        for k, n in self.case["build"]:
            self.create(["create", k, n], k, n)
        for op in self.case["ops"]:
            self.execute(op)
        self.settle()
        return self

    def settle(self):
        """Faults stop; every agent is scheduled fairly until nothing is left."""
        w = self.world
        w.io_fault.clear()
        w.print_faults.clear()
        left = self.case.get("settle", SETTLE)
        while True:
            while w.net:
                left -= 1
                self.net(["net", 0, "deliver"], 0, "deliver")
            busy = True
            while busy:
                busy = False
                for name in list(w.order):
                    left -= 1
                    if name in w.objs and self.step(["step", name], name) is not False:
                        busy = True
                if left < 0:
                    left = self.unsettled()
                if w.net:
                    break
            if w.net:
                continue
            d = [w.objs[n].shortest_deadline() for n in w.order]
            d = [x for x in d if x is not None]
            if not d:
                break
            left -= 1
            if left < 0:
                left = self.unsettled()
            self.advance(max(min(d) - CLOCK.now, 0) + 0.125)
        self.finished()

    def finished(self):
        # All states in the frontier are quiescent for the agent stepped last;
        # the others must be, too.
        w = self.world
        for st in self.frontier:
            if all(model.quiescent(self.menv, st, n, CLOCK.now) for n in w.order) and \
                    all(not pending(a) for _, a in st.ags):
                break
        else:
            raise Violation("unfinished", "nothing left to do, but work is left in the model")
        self.stats["settled"] += 1

    def unsettled(self):
        """The system does not come to rest. Does the model?"""
        for st in self.frontier:
            s = st
            budget = Budget(self.mode["nodes"])
            for n in self.world.order:
                if not model.quiescent(self.menv, s, n, CLOCK.now):
                    raise Inconclusive("long execution")
            if any(pending(a) for _, a in s.ags):
                raise Inconclusive("long execution")
        if self.overtime:
            raise Violation("restless", "steps go on although no work is left")
        # The last steps may just have finished the work.
        self.overtime = True
        return 20 * len(self.world.order) + 20


def make(case, trace, mode):
    if case.get("driver"):
        from . import runloop
        return runloop.RunSim(case, trace, mode)
    return Sim(case, trace, mode)


def same_bbs(s, t):
    if s.ags is t.ags:
        return True
    a, b = dict(s.ags), dict(t.ags)
    return a.keys() == b.keys() and all(a[k].bb == b[k].bb for k in a)


def simulate(case, trace=None, mode=None):
    """-> ("ok", None, sim) | ("violation", Violation, sim) | ("inconclusive", reason, sim)"""
    sim = None
    try:
        try:
            WATCH.idle = 0
            WATCH.active = True
            sim = make(case, trace, mode)
            sim.run()
        finally:
            WATCH.active = False
        return "ok", None, sim
    except (Violation, Broken) as v:
        res = "violation", v, sim
    except Inconclusive as i:
        return "inconclusive", i, sim
    except RecursionError:
        return "inconclusive", Inconclusive("cyclic term"), sim
    except seams.Hang:
        res = "violation", Violation("hang", "a step does not return"), sim
    if sim is not None and sim.mode["lossy"]:
        if trace is not None:
            del trace[:]
        again = simulate(case, trace, WIDE)
        if again[0] != "violation":
            return "inconclusive", Inconclusive("not confirmed: %s" % again[0]), again[2]
        return again
    return res
