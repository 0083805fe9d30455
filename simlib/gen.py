"""Seeded generators of cases: programs, workloads, schedules and faults."""
import random

from . import ir
from .ir import lit, n, v

VARS = ("X", "Y", "_Z", "_W1_x")
ATOMS = ("a", "b", "c")
SELF = "self"
# Names of sources that are possible names of agents.
NAMES = ("ag0", "ag1", "ag01", "ag011", "ag", "ag1x", "agB", "bobC", "bob_c", "a", "a1", "longName_2b", "robotArm7")

# Names of agents and names of sources (or given names) they come from.
SOURCES = {"while_": ["while", "While", "_while"], "true_": ["true", "True"], "not_": ["not", "Not"], "begin_": ["begin", "_begin"],
           "end_": ["end"], "include_": ["include", "__Include"], "if_": ["if"], "for_": ["for"], "else_": ["else"], "div_": ["div"],
           "mod_": ["mod"], "false_": ["false"], "agent": ["", "_", "---", "agent"], "agent_B": ["agent B", "Agent-B", "_Agent B", "agent_B"],
           "a_b_c": ["a b-c", "A+b*c", "__a_b c"], "ag_0": ["ag-0", "Ag 0", "ag_0"], "bobC": ["BobC", "_bobC", "-bobC"], "x": ["x", "X", "_X", "_ x"]}

# Actions of the host that have the name of others.
OWN = ((".print", 5), (".print", 6), (".concat", 2), (".member", 3), (".my_name", 2), (".fail", 1), (".concat", 1), (".p", 8), (".lv", 1), (".lv", 2),
       (".lv", 3), (".top", 1), (".top", 2), (".top", 3))

BASE = dict(
    agents=(1, 3), goals=(2, 5), beliefs=(2, 4), tests=(0, 2), rules=(0, 2),
    plans_per_goal=(1, 2), handlers=(0, 3), body=(1, 4), nest=2, transport=0.0,
    stmt=dict(p=6, add=3, **{"del": 2}, rep=1, sub=4, later=1, test=1, loop_for=1, loop_while=1, cond=2, query=1, wait=0,
              waitev=0, send=0, bcast=0, io=0, printing=0, fail=0, post=0, conv=0, how=0, spawn=0, abolish=0,
              ungrounded=0, meta=0.3, scatter=0, calc=0, look=0, look_at=0, search=0.1),
    query=dict(bel=6, rule=2, cmp=2, eq=2, member=1, range=1, findall=1, count=1, typetest=0, listop=0.15, neg=2, alt=2,
               conj=3, gen=0, fn=0, substring=0, action_fail=0, send_in_query=0, err=0.03, const=0.15),
    op=dict(step=10, run=3, adv=1, back=0, jump=1, jumpeq=0.3, host=1, net=0, create=0, kill=0, arm=0, dump=0),
    nops=(15, 60), values=("num",), annots=0.0, burst=0.4, risk=0.05, initial=(1, 2),
    context=0.5, clones=0.0, tails=0.3, driver=0.0, fallback=0.8, bare=0.2, arity0=0.0, shared=0.0, arith=0.12, truth=0.03,
    nested=0.3, given=0.05, labels=0.12, style=0.25, prefixes=0.15,
)


def merge(base, over):
    out = dict(base)
    for k, x in over.items():
        if isinstance(x, dict) and isinstance(out.get(k), dict):
            y = dict(out[k])
            y.update(x)
            out[k] = y
        else:
            out[k] = x
    return out


def weighted(rng, w):
    items = [(k, x) for k, x in w.items() if x > 0]
    r = rng.random() * sum(x for _, x in items)
    for k, x in items:
        r -= x
        if r < 0:
            return k
    return items[-1][0]


class Scope:
    """What is known about the variables of a plan or rule."""

    def __init__(self, bound=()):
        self.bound = set(bound)

    def copy(self):
        return Scope(self.bound)


class Gen:
    def __init__(self, seed, profile):
        self.rng = random.Random(seed)
        self.seed = seed
        self.p = merge(BASE, profile)
        self.ids = 0
        self.events = {}
        self.texts = {}
        self.names = {}
        self.labels = []
        self.whiles = 0
        self.calcs = 0
        if len(set(self.p["values"])) > 3 and self.chance(0.3):
            self.p["values"] = ("num", "num", "atom") if self.chance(0.3) else ("num",)
        self.rich = not set(self.p["values"]) <= {"num", "frac"}

    # -- small helpers

    def chance(self, x):
        return self.rng.random() < x

    def span(self, key):
        a, b = self.p[key]
        return self.rng.randint(a, b)

    def pick(self, xs):
        return xs[self.rng.randrange(len(xs))]

    def fid(self):
        self.ids += 1
        return n(self.ids)

    # -- terms

    def const(self):
        k = self.pick(self.p["values"])
        if k == "num":
            return n(self.rng.randint(0, 3))
        if k == "frac":
            return n(self.pick([0.5, 1.5, -1.0, 2.0, 0.0, 1.0]))
        if k == "atom":
            return lit(self.pick(ATOMS))
        if k == "str":
            return ("s", self.pick(["a", "b", "", "x y", "1", "[a]", " b", "q\"", "c\\d", "n\nl", "\u00e9\u4e2d", "t\t", "\\n", "f(X)."]))
        if k == "bool":
            return ("b", self.chance(0.5))
        if k == "list":
            return ("t", tuple(self.scalar() for _ in range(self.rng.randint(0, 3))))
        if k == "struct":
            return self.struct(self.scalar)
        raise ValueError(k)

    def scalar(self):
        return self.pick([n(self.rng.randint(0, 2)), lit(self.pick(ATOMS)), n(self.rng.randint(0, 2))])

    def struct(self, arg):
        f = self.pick(["f", "f", "h"])
        return ("l", f, tuple(arg() for _ in range(1 if f == "f" and self.chance(0.5) else 2)), ())

    def arith(self, sc, depth=2):
        """An expression; usually of numbers, but variables may be anything."""
        r = self.rng.random()
        if depth <= 0 or r < 0.15:
            return v(self.pick(sorted(sc.bound))) if sc.bound and self.chance(0.6) else n(self.rng.randint(0, 3))
        if r < 0.3:
            return ("uop", "-", self.arith(sc, depth - 1))
        if r < 0.4:
            x = self.arith(sc, depth - 1)
            return ("op", "**", ("uop", "-", x) if self.chance(0.4) else x, n(self.rng.randint(0, 2)))
        if r < 0.5:
            return ("op", self.pick(["/", "div", "mod"]), self.arith(sc, depth - 1), n(self.rng.randint(1, 3)))
        return ("op", self.pick(["+", "-", "*"]), self.arith(sc, depth - 1), self.arith(sc, depth - 1))

    def truth(self, sc, depth=2):
        """A comparison or combination of truth values as a term."""
        x = v(self.pick(sorted(sc.bound)))
        r = self.rng.random()
        if depth < 2 and r < 0.2:
            return x
        if depth <= 0 or r < 0.6:
            y = n(self.rng.randint(0, 3)) if self.chance(0.6) else v(self.pick(sorted(sc.bound) + list(VARS[:1])))
            if self.chance(0.2):
                x, y = lit("f", x), lit("f", y)
            return ("op", self.pick(["<", "<=", ">", ">=", "==", "\\==", "==", "\\=="]), x, y)
        if r < 0.75:
            return ("uop", "not", self.truth(sc, depth - 1))
        return ("op", self.pick(["&", "|"]), self.truth(sc, depth - 1), self.truth(sc, depth - 1))

    def value(self, sc):
        """A term that is ground if the variables in sc.bound are."""
        r = self.rng.random()
        if sc.bound and r < 0.5:
            return v(self.pick(sorted(sc.bound)))
        if sc.bound and r < 0.5 + self.p["arith"] * (0.4 if self.rich else 1):
            if self.chance(0.5):
                return ("op", self.pick(["+", "-", "*"]), v(self.pick(sorted(sc.bound))), n(self.rng.randint(0, 2)))
            t = self.arith(sc)
            # Constant expressions are folded, which -+ can tell.
            return t if "'v'" in repr(t) else self.const()
        if sc.bound and self.chance(self.p["truth"]):
            return self.truth(sc)
        r = self.rng.random()
        if "struct" in self.p["values"] and sc.bound and r < 0.2:
            return self.struct(lambda: v(self.pick(sorted(sc.bound))) if self.chance(0.5) else self.scalar())
        if "list" in self.p["values"] and sc.bound and r < 0.35:
            return ("t", (v(self.pick(sorted(sc.bound))), self.scalar()))
        return self.const()

    def subpattern(self, sc, binds, depth=1):
        """Part of a structure that is matched."""
        r = self.rng.random()
        if r < 0.5:
            name = self.pick(VARS[:3])
            binds.add(name)
            return v(name)
        if r < 0.6 and sc.bound:
            return v(self.pick(sorted(sc.bound)))
        if r < 0.65:
            return ("_",)
        if r < 0.75 and depth > 0:
            return self.struct(lambda: self.subpattern(sc, binds, depth - 1))
        return self.scalar()

    def pattern(self, sc, binds):
        """An argument of a literal that is matched; may bind variables."""
        r = self.rng.random()
        if r < 0.55:
            name = self.pick(VARS)
            binds.add(name)
            return v(name)
        if r < 0.62:
            return ("_",)
        if r < 0.75 and sc.bound:
            return v(self.pick(sorted(sc.bound)))
        if r < 0.8 and "list" in self.p["values"]:
            a, b = self.pick(VARS), self.pick(VARS)
            if a != b:
                binds.add(a)
                binds.add(b)
                return ("c", v(a), v(b))
        if r < 0.87 and "list" in self.p["values"] and self.chance(self.p["nested"]):
            return ("t", tuple(self.subpattern(sc, binds) for _ in range(self.rng.randint(1, 2))))
        if r < 0.93 and "struct" in self.p["values"]:
            return self.struct(lambda: self.subpattern(sc, binds))
        return self.const()

    def annots(self, sc, pat, binds=None):
        """Annotations of a term that is matched (pat) or that is made."""
        if not self.chance(self.p["annots"]):
            return ()
        out = []
        for f in self.rng.sample(["k1", "k2", "k3"], self.rng.randint(1, 2)):
            r = self.rng.random()
            if r < 0.35:
                out.append(lit(f))
            elif r < 0.5 and sc.bound:
                out.append(lit(f, v(self.pick(sorted(sc.bound)))))
            elif r < 0.65 and binds is not None:
                name = self.pick(VARS)
                binds.add(name)
                out.append(lit(f, v(name)))
            elif r < 0.72 and "bool" in self.p["values"]:
                out.append(lit(f, ("b", self.chance(0.5))))
            else:
                out.append(lit(f, n(self.rng.randint(0, 1))))
        if self.chance(0.2):
            # Like those of received messages.
            if binds is not None and self.chance(0.4):
                name = self.pick(VARS)
                binds.add(name)
                out.append(lit("source", v(name)))
            else:
                out.append(lit("source", lit(self.pick(self.agents))))
            if self.chance(0.5):
                del out[:-1]
        return tuple(out)

    # -- signatures

    def setup(self):
        rng = self.rng
        self.nb = self.span("beliefs")
        names = lambda x: [x, x + "1", x + "10", x + "1x", x + "1xY", x + "_"] if self.chance(self.p["prefixes"]) else \
            [x + str(i) for i in range(9)]
        bnames, gnames = names("b"), names("g")
        self.beliefs = [(bnames[i], 0 if rng.random() < self.p["arity0"] else rng.choice([1, 1, 2]))
                        for i in range(self.nb)]
        self.ng = self.span("goals")
        self.goals = [(gnames[i], rng.choice([0, 1, 1, 2])) for i in range(self.ng)]
        self.nt = self.span("tests")
        self.tests = [("t%d" % i, 1) for i in range(self.nt)]
        self.nr = self.span("rules")
        self.rules = [("r%d" % i, rng.choice([1, 1, 2])) for i in range(self.nr)]
        self.metas = [("m%d" % i, 1) for i in range(1 if self.p["stmt"]["meta"] > 0 else 0)]
        if rng.random() < self.p["shared"]:
            # Events that differ only in their kind.
            for i in range(len(self.tests)):
                self.tests[i] = self.pick(self.goals + self.beliefs)
            for i in range(len(self.goals)):
                if rng.random() < 0.5:
                    self.goals[i] = self.beliefs[i % self.nb] if self.beliefs[i % self.nb] not in self.goals else \
                        self.goals[i]
            if rng.random() < 0.3 and self.beliefs[0] not in self.tests:
                self.tests = self.tests[:-1] + [self.beliefs[0]] if self.tests else self.tests
        self.nag = self.span("agents")
        if rng.random() < self.p["given"]:
            self.agents = rng.sample(NAMES if rng.random() < 0.6 else NAMES + tuple(SOURCES) + tuple(SOURCES), self.nag)
            if len(set(self.agents)) < self.nag:
                self.agents = rng.sample(sorted(SOURCES), self.nag)
        else:
            self.agents = ["ag%d" % i for i in range(self.nag)]
        # Names that later copies may get.
        self.others = [a + x for a in self.agents for x in ("1", "2")]
        # Goals that only one agent has plans for.
        self.owners = {}
        for i, (f, k) in enumerate(self.goals):
            if i and rng.random() < self.p.get("specialist", 0.0):
                self.owners[f] = self.pick(self.agents)

    def bel_ground(self, sc, which=None):
        f, k = which or self.pick(self.beliefs)
        return ("l", f, tuple(self.value(sc) for _ in range(k)), self.annots(sc, False))

    def bel_pattern(self, sc, binds, which=None):
        f, k = which or self.pick(self.beliefs)
        return ("l", f, tuple(self.pattern(sc, binds) for _ in range(k)), self.annots(sc, True, binds))

    # -- queries

    def qatom(self, sc, binds, depth, rules):
        w = dict(self.p["query"])
        if depth <= 0:
            w.update(neg=0, alt=0, conj=0)
        if not rules:
            w["rule"] = 0
        if not sc.bound:
            w["cmp"] = 0
        if self.rich:
            # Many pairs of terms can not be compared.
            w["cmp"] *= 0.3
        k = weighted(self.rng, w)
        rng = self.rng
        if k == "const":
            return self.constant()
        if k == "bel":
            return ("lit", self.bel_pattern(sc, binds))
        if k == "rule":
            f, a = self.pick(rules)
            return ("lit", ("l", f, tuple(self.pattern(sc, binds) for _ in range(a)), ()))
        if k == "cmp":
            x = v(self.pick(sorted(sc.bound)))
            op = self.pick(["<", "<=", ">", ">=", "==", "\\=="])
            return ("cmp", op, x, n(rng.randint(0, 2)) if rng.random() < 0.7 else self.value(sc))
        if k == "eq":
            name = self.pick(VARS)
            binds.add(name)
            return ("=", v(name), self.value(sc))
        if k == "member":
            name = self.pick(VARS)
            binds.add(name)
            if rng.random() < self.p["nested"]:
                binds.discard(name)
                c = rng.randrange(3)
                item = (lambda: self.struct(self.scalar)) if c else \
                    lambda: ("t", tuple(self.scalar() for _ in range(rng.randint(1, 2))))
                pat = self.struct(lambda: self.subpattern(sc, binds, 0)) if c else \
                    ("t", (self.subpattern(sc, binds, 0), self.subpattern(sc, binds, 0)))
                return ("act", ".member", (pat, ("t", tuple(item() for _ in range(rng.randint(1, 5))))))
            return ("act", ".member", (v(name), ("t", tuple(self.value(sc) for _ in range(rng.randint(0, 3))))))
        if k == "range":
            name = self.pick(VARS)
            binds.add(name)
            return ("act", ".range", (n(rng.randint(0, 3)), v(name)))
        if k == "gen":
            name = self.pick(VARS)
            binds.add(name)
            return ("act", ".gen", (self.fid(), n(rng.randint(0, 3)), v(name)))
        if k in ("findall", "count"):
            inner = set()
            q = self.bel_pattern(sc, inner) if not rules or rng.random() < 0.6 else \
                ("l",) + (lambda r: (r[0], tuple(self.pattern(sc, inner) for _ in range(r[1])), ()))(self.pick(rules))
            free = sorted(inner - sc.bound)
            name = self.pick(VARS)
            if name in inner:
                name = "N"
            out = v(name)
            binds.add(name)
            if k == "count":
                if free and rng.random() < 0.3:
                    return ("act", ".sum", (v(free[0]), q, out))
                return ("act", ".count", (q, out))
            return ("act", ".findall", (v(self.pick(free)) if free else n(1), q, out))
        if k == "substring":
            name = self.pick(VARS)
            binds.add(name)
            return ("act", ".substring", (("s", self.pick(["a", "ab", "aa", "aba", "", "x"])),
                                          ("s", self.pick(["aab", "abab", "aaaa", "ababa", ""])),
                                          v(name)))
        if k == "typetest":
            x = v(self.pick(VARS))
            t = v(self.pick(sorted(sc.bound))) if sc.bound and rng.random() < 0.5 else self.pick([
                n(1), ("s", ""), ("s", "a"), lit("a"), lit("f", x), ("l", "a", (), (lit("b"),)), ("t", ()), ("t", (x, n(1))),
                ("c", n(1), x), ("c", n(1), n(2)), ("b", True), x, ("op", "+", n(1), n(1)), ("op", "<", n(1), n(2)),
                ("c", n(1), ("t", (n(2),)))])
            if rng.random() < 0.3:
                return ("act", ".ground", (self.pick([lit("f", x), t, ("t", (n(1), x)), ("t", (x, n(1))), ("c", n(1), x), ("c", x, ("t", ())),
                                                      ("l", "f", (n(1),), (x,)), lit("f", ("t", (lit("h", x),)))]),))
            return ("act", self.pick([".atom", ".literal", ".list", ".number", ".string", ".structure"]), (t,))
        if k == "listop":
            name = self.pick(VARS)
            binds.add(name)
            items = ("t", tuple(n(rng.randint(0, 5)) for _ in range(rng.randint(1, 4))))
            c = rng.randrange(10)
            if c == 7:
                return ("act", self.pick([".floor", ".ceil", ".round"]),
                        (self.value(sc) if rng.random() < 0.5 else n(self.pick([0.5, 1.5, 2.5, -0.5, -1.25, 3.0])), v(name)))
            if c == 8:
                x = n(rng.randint(-2, 9))
                return ("act", ".randint", (x, x, v(name)))
            if c == 9:
                x, y, z = (self.pick([v(name), ("_",), v("T%d" % i), n(rng.randint(0, 59))]) for i in range(3))
                return ("act", self.pick([".date", ".time"]), (x, y, z))
            if c == 0:
                return ("act", ".nth", (n(rng.randint(0, len(items[1]) - 1)), items, v(name)))
            if c == 1:
                return ("act", ".sort", (items, v(name)))
            if c == 2:
                return ("act", self.pick([".min", ".max"]), (items, v(name)))
            if c == 3:
                return ("act", ".length", (items, v(name)))
            if c == 4:
                return ("act", ".tail", (items, v(name)))
            if c == 5:
                return ("act", ".concat", (items, ("t", (self.value(sc),)), v(name)))
            return ("act", ".concat", (("s", "a"), ("s", self.pick(["", "b", "cc"])), v(name)))
        if k == "fn":
            name = self.pick(VARS)
            binds.add(name)
            c = rng.randrange(6)
            if c == 0:
                i = self.fid()
                if rng.random() < 0.3:
                    i = self.pick([n(i[1] + 0.5), n(-i[1] - 0.75), ("s", str(int(i[1]))), n(i[1] + 0.999)])
                return ("act", ".fn", (i, self.value(sc), v(name)))
            if c == 3 and rng.random() < 0.7:
                return ("act", ".two", (self.loose(sc), self.loose(sc), v(name)))
            if c == 4:
                return ("act", ".lit", (self.value(sc) if rng.random() < 0.3 else self.struct(self.scalar), self.value(sc),
                                        v(name)))
            if c == 5:
                binds.discard(name)
                own, k = self.pick(OWN)
                return ("act", own, (self.fid(),) + tuple(self.value(sc) for _ in range(k - 1)))
            if c == 1:
                return ("act", ".conv", (self.value(sc), self.pick([n(1), ("s", "x"), lit("a"), n(0.5)]),
                                         ("t", (self.value(sc), lit("a"))), v(name)))
            if c == 2:
                binds.discard(name)
                return ("act", ".pred", (self.value(sc), n(rng.randint(0, 3))))
            binds.discard(name)
            return ("act", ".proc", (("s", "s%d" % rng.randint(0, 9)),))
        if k == "err":
            # Has no answer, but an error (or a warning look at an unbound variable).
            x = v("E%d" % rng.randint(0, 1))
            q = self.pick([("act", ".raise", ()), ("cmp", "<", x, n(1)),
                           ("and", ("=", x, n(0)), ("cmp", ">", ("op", self.pick(["/", "div", "mod"]), n(1), x), n(0))),
                           ("and", ("=", x, ("s", "a")), ("=", v("F"), ("op", "+", x, n(1)))),
                           ("and", ("=", x, lit("a")), ("cmp", "<", x, n(1))),
                           ("act", ".nth", (n(5), ("t", (n(1),)), v("F"))),
                           ("act", ".fn", (lit("x"), n(1), v("F"))),
                           ("and", ("lit", self.bel_pattern(sc, binds)), ("cmp", "<=", x, n(2)))])
            return q if rng.random() < 0.7 else ("or", q, ("true",))
        if k == "action_fail":
            return ("act", ".fail", ())
        if k == "neg":
            return ("not", self.qatom(sc.copy(), set(), depth - 1, rules))
        if k == "alt":
            b1, b2 = set(), set()
            q = ("or", self.qatom(sc, b1, depth - 1, rules), self.qatom(sc, b2, depth - 1, rules))
            binds |= b1 & b2
            return q
        if k == "conj":
            b1 = set()
            left = self.qatom(sc, b1, depth - 1, rules)
            sc2 = Scope(sc.bound | b1)
            right = self.qatom(sc2, b1, depth - 1, rules)
            binds |= b1
            return ("and", left, right)
        raise ValueError(k)

    def literal(self, sc, binds):
        """A literal that can be a query."""
        if self.p["stmt"]["search"] > 0 and self.chance(0.1 if self.p["stmt"]["search"] < 1 else 0.5):
            f, a = self.pick(self.spreds()[0])
            return ("l", f, tuple(self.pattern(sc, binds) for _ in range(a)), ())
        if self.rules and self.chance(0.4):
            f, a = self.pick(self.rules)
            return ("l", f, tuple(self.pattern(sc, binds) for _ in range(a)), ())
        return self.bel_pattern(sc, binds)

    def meta(self, f):
        """A plan that uses the query it is given."""
        rng = self.rng
        q = v("Q")
        out = []

        def p():
            out.append(("q", ("act", ".p", (self.fid(), q) + tuple(v(x) for x in VARS))))

        def some():
            s = [("q", ("act", ".p", (self.fid(), q)))]
            s += self.stmts(Scope(), len(self.goals), 0, "goal", rng.randint(0, 2))
            if self.p["stmt"]["wait"] and rng.random() < 0.5:
                s.append(("q", ("act", ".wait", (n(self.millis()),))))
            return tuple(s)
        p()
        for _ in range(rng.randint(1, 3)):
            c = rng.randrange(9)
            if c <= 2:
                out.append(("for", ("and", ("act", ".q", (self.fid(),)), ("lit", q)), some()))
            elif c == 3:
                out.append(("if", ("lit", q), (("?", q),) + some(), None))
            elif c == 4:
                out.append(("q", ("act", ".findall", (q, q, v("X")))))
            elif c == 5:
                out.append(("q", ("and", ("or", ("not", ("lit", q)), ("lit", q)), self.probe(".q"))))
            elif c == 6:
                out.append(("-", q))
            elif c == 7:
                out.append(("for", ("and", ("lit", q), self.probe(".q")), some() + (("-", q),)))
            else:
                out.append(("if", ("lit", q), (("+", q),) if rng.random() < 0.5 else (("q", ("lit", q)), ("-", q)), None))
            if rng.random() < 0.8:
                p()
        context = ("act", ".q", (self.fid(),))
        if rng.random() < 0.3:
            context = ("and", context, ("or", ("lit", q), ("true",)))
        return dict(trig="+", gt="!", head=lit(f, q), context=context, body=tuple(out), label=None)

    # -- searches: random logic programs, watched while they backtrack

    def sterm(self, depth=1, cons=True):
        rng = self.rng
        r = rng.random()
        if r < 0.6:
            return v(self.pick(VARS[:3] if rng.random() < 0.8 else VARS))
        if r < 0.64:
            return ("_",)
        if r < 0.72 and depth > 0 and "struct" in self.p["values"]:
            return self.struct(lambda: self.sterm(depth - 1))
        if r < 0.78 and depth > 0 and "list" in self.p["values"]:
            if cons and rng.random() < 0.5:
                return ("c", self.sterm(depth - 1), v(self.pick(VARS)))
            return ("t", tuple(self.sterm(depth - 1) for _ in range(rng.randint(1, 2))))
        return self.scalar()

    def sground(self):
        r = self.rng.random()
        if r < 0.1 and "struct" in self.p["values"]:
            return self.struct(self.scalar)
        if r < 0.18 and "list" in self.p["values"]:
            return ("t", tuple(self.scalar() for _ in range(self.rng.randint(1, 2))))
        return self.scalar()

    def slit(self, preds):
        f, k = self.pick(preds)
        if self.rng.random() < 0.12:
            return ("l", f, tuple(self.sground() for _ in range(k)), ())
        return ("l", f, tuple(self.sterm() for _ in range(k)), ())

    def satom(self, preds, depth, quiet=False):
        rng = self.rng
        w = dict(lit=10, member=2, range=1, eq=2, findall=2, count=1.6, sum=0.4, nots=2, alt=3, conj=2, fail=0.4, sub=0.8, nth=0.4, lib=0.5, same=0.2,
                 gen=0.0 if quiet or not self.p["query"]["gen"] else 1.5)
        if depth <= 0:
            w.update(nots=0, alt=0, conj=0)
        k = weighted(rng, w)
        if k == "lit":
            return ("lit", self.slit(preds))
        if k == "member" and rng.random() < 0.3 and "struct" in self.p["values"]:
            def item(arg):
                r = rng.random()
                return ("l", "f", (arg(), arg()), ()) if r < 0.6 else ("t", (arg(), arg())) if r < 0.8 else self.struct(arg)
            return ("act", ".member", (item(lambda: self.sterm(0)), ("t", tuple(item(self.scalar)
                                                                              for _ in range(rng.randint(2, 5))))))
        if k == "member":
            return ("act", ".member", (self.sterm(), ("t", tuple(self.sground() if rng.random() < 0.8 else self.sterm(0, False)
                                                                 for _ in range(rng.randint(0, 4))))))
        if k == "range":
            return ("act", ".range", (n(rng.randint(0, 3)), self.sterm()))
        if k == "gen":
            return ("act", ".gen", (self.fid(), n(rng.randint(0, 3)), self.sterm()))
        if k == "eq" and rng.random() < 0.15:
            def tagged(arg):
                annots = [self.pick([lit("a"), lit("s", arg()), lit("s", n(1)), v(self.pick(VARS))])
                          for _ in range(rng.randint(0, 2))]
                return ("l", "f", (arg(),), tuple(dict.fromkeys(annots)))
            return ("=", tagged(lambda: self.sterm(0)), v(self.pick(VARS)) if rng.random() < 0.3 else tagged(self.scalar))
        if k == "same":
            def one():
                return self.pick([v(self.pick(VARS[:2])), self.sground(), ("c", n(1), n(rng.randint(1, 2))), ("t", (n(1), n(1))),
                                  ("l", "f", (n(1),), (lit("a"),)), ("l", "f", (n(1),), ())])
            return ("cmp", self.pick(["==", "\\=="]), one(), one())
        if k == "eq":
            return ("=", self.sterm(), self.sground() if rng.random() < 0.6 else self.sterm(0, False))
        if k == "findall":
            found, result = self.slit(preds if rng.random() < 0.7 else [("w", 3)]), self.sterm(1) if rng.random() < 0.5 else v("N")
            if rng.random() < 0.6:
                result = v(self.pick(VARS)) if rng.random() < 0.8 else result
                # A variable may be left unbound by some answers, not by others.
                open_ = [v(self.pick(VARS)) for _ in found[2]]
                found = ("l", found[1], tuple(x if rng.random() < 0.6 else a for x, a in zip(open_, found[2])), ())
                return ("act", ".findall", (self.pick(open_) if open_ and rng.random() < 0.6 else ("t", tuple(open_)), found, result))
            return ("act", ".findall", (self.sterm(), found, result))
        if k == "count":
            return ("act", ".count", (self.slit(preds), v(self.pick(VARS + ("N",))) if rng.random() < 0.5 else n(rng.randint(0, 3))))
        if k == "sum":
            return ("act", ".sum", (n(rng.randint(1, 2)), self.slit(preds), v(self.pick(VARS + ("N",))) if rng.random() < 0.5 else n(rng.randint(0, 3))))
        if k == "sub":
            return ("act", ".substring", (("s", self.pick(["a", "aa", "aa", "aba", ""])), ("s", self.pick(["aab", "aaaa", "aaa", "ababa"])), self.sterm(0)))
        if k == "nth":
            return ("act", ".nth", (n(rng.randint(0, 1)), ("t", (self.sterm(), self.sground())), self.sterm()))
        if k == "lib":
            items = ("t", tuple(self.scalar() for _ in range(rng.randint(1, 3))))
            nums = ("t", tuple(n(rng.randint(0, 2)) for _ in range(rng.randint(1, 3))))
            return self.pick([("act", ".length", (items, self.sterm())), ("act", ".tail", (items, self.sterm())),
                              ("act", ".concat", (items, nums, self.sterm())), ("act", ".max", (nums, self.sterm())),
                              ("act", ".min", (nums, self.sterm())), ("act", ".sort", (nums, self.sterm()))])
        if k == "fail":
            return ("act", ".fail", ())
        if k == "nots":
            return ("not", self.satom(preds, depth - 1, quiet))
        watch = ("true",) if quiet else self.probe(".q")
        if k == "alt":
            a, b = self.satom(preds, depth - 1, quiet), self.satom(preds, depth - 1, quiet)
            r = rng.random()
            if r < 0.25:
                a = ("and", a, ("act", ".fail", ()))
            elif r < 0.5 and not quiet:
                a = ("and", a, ("and", self.probe(".q"), ("act", ".fail", ())))
            if rng.random() < 0.4:
                b = ("and", watch, b) if rng.random() < 0.6 else ("true",)
            return ("or", a, b)
        a, b = self.satom(preds, depth - 1, quiet), self.satom(preds, depth - 1, quiet)
        if not quiet and rng.random() < 0.5:
            b = ("and", watch, b)
        return ("and", a, b)

    def spreds(self):
        """Tables and searches that any agent has, some with beliefs of the same name."""
        return [("e", 2), ("w", 3), ("s", 1)], [("sa", 2), ("sb", 1), ("sz", 0), ("sc", 2)]

    def srules(self):
        rng = self.rng
        out = []
        tables, preds = self.spreds()
        loose = rng.random() < 0.4
        for f, k in tables:
            for _ in range(rng.randint(1, 4)):
                if out and out[-1][0][1] == f and rng.random() < 0.15:
                    out.append(out[-1])
                    continue
                args = tuple(self.sground() if rng.random() < 0.85 else
                             self.pick([v("X"), v("X"), v("Y"), v("Y"), ("_",)]) for _ in range(k))
                if f == "w" and loose:
                    args = tuple(("_",) if rng.random() < 0.4 else a for a in args)
                out.append((("l", f, args, ()), ("true",)))
        for i, (f, k) in enumerate(preds):
            for _ in range(rng.randint(1, 3)):
                q = self.satom(tables + preds[:i], 1, rng.random() < 0.6)
                if rng.random() < 0.5:
                    q = ("and", q, self.satom(tables + preds[:i], 0, True))
                out.append((("l", f, tuple(self.sterm() for _ in range(k)), ()), q))
        if rng.random() < 0.3:
            rng.shuffle(out)
        return out

    def search(self, depth):
        rng = self.rng
        tables, preds = self.spreds()
        q = self.satom(tables + preds, 2)
        for _ in range(rng.randint(0, 2)):
            q = ("and", q, self.satom(tables + preds, 1)) if rng.random() < 0.7 else \
                ("and", ("and", q, self.probe(".q")), self.satom(tables + preds, 1))
        q = self.watched(q)
        p = ("q", self.probe(".p"))
        c = rng.randrange(6)
        if c <= 2:
            body = [p]
            if depth > 0 and rng.random() < 0.4:
                body += self.search(depth - 1)
            if rng.random() < 0.3:
                f, k = self.pick(tables)
                body.append(("+", ("l", f, tuple(self.sground() for _ in range(k)), ())))
            if rng.random() < 0.25:
                f, k = self.pick(tables)
                body.append(("-", ("l", f, tuple(self.sterm() for _ in range(k)), ())))
            if rng.random() < 0.2 and self.p["stmt"]["wait"]:
                body.append(("q", ("act", ".wait", (n(self.millis()),))))
            return [("for", q, tuple(body)), p]
        if c <= 4:
            return [("if", q, (p,), (p,) if rng.random() < 0.6 else None), p]
        if rng.random() < 0.1:
            body = (p,)
            for _ in range(rng.randint(2, 5)):
                x = v(self.pick(VARS))
                body = (("for", self.watched(("act", ".range", (n(2), x)) if rng.random() < 0.7 else
                                             ("act", ".member", (x, ("t", (n(1), n(2))))), False), body),)
                if rng.random() < 0.3:
                    body += (p,)
            return [body[0], p]
        if rng.random() < 0.3 + self.p["risk"]:
            return [("q", q), p]
        return [("if", q, tuple(self.search(depth - 1)) if depth > 0 else (p,), None), p]

    def loose(self, sc):
        """A term that may contain unbound variables."""
        x = v(self.pick(VARS[:3]))
        r = self.rng.random()
        return x if r < 0.4 else lit("f", x) if r < 0.6 else ("t", (x, v(self.pick(VARS[:3])))) if r < 0.75 else self.value(sc)

    def constant(self, depth=2):
        """A query without variables."""
        r = self.rng.random()
        if depth <= 0 or r < 0.25:
            return (self.pick(["true", "true", "false"]),)
        if r < 0.4:
            return ("not", self.constant(depth - 1))
        if r < 0.6:
            a, b = self.rng.choice([(n(1), n(2)), (("s", "a"), ("s", "b")), (("b", True), ("b", False)), (n(2), n(2))])
            return ("cmp", self.pick(["==", "\\=="]), a, b)
        return (self.pick(["and", "or"]), self.constant(depth - 1), self.constant(depth - 1))

    def query(self, sc, depth=2, rules=None):
        """-> (query, variables bound by it)"""
        binds = set()
        q = self.qatom(sc, binds, depth, self.rules if rules is None else rules)
        return q, binds

    def probe(self, name, sc=None):
        return ("act", name, (self.fid(),) + tuple(v(x) for x in VARS))

    def watched(self, q, more=True):
        """Makes the moment and the result of an evaluation visible."""
        q = ("and", ("act", ".q", (self.fid(),)), q)
        if more:
            q = ("and", q, self.probe(".r"))
        return q

    # -- bodies

    def stmts(self, sc, rank, depth, kind, count=None):
        out = []
        for _ in range(count if count is not None else self.span("body")):
            out.extend(self.stmt(sc, rank, depth, kind))
        return tuple(out)

    def stmt(self, sc, rank, depth, kind):
        """rank: goals and beliefs of a higher rank may be caused. kind: goal/belief/test plan."""
        w = dict(self.p["stmt"])
        if depth <= 0:
            w.update(loop_for=0, loop_while=0, cond=0)
        if kind != "goal":
            w.update(later=0, loop_while=0)
        k = weighted(self.rng, w)
        rng = self.rng
        goals = [g for i, g in enumerate(self.goals) if i > rank] if kind == "goal" else self.goals[-1:] \
            if kind == "test" else []
        bels = self.beliefs if kind != "belief" else [b for i, b in enumerate(self.beliefs) if i > rank]
        if self.owners and rng.random() < 0.9:
            goals = [g for g in goals if self.owners.get(g[0], self.current) == self.current]
        if k in ("add", "del", "rep") and not bels or k in ("sub", "later") and not goals:
            k = "p"
        if k == "p":
            return [("q", self.probe(".p"))]
        if k == "look_at":
            return [("q", ("act", ".dump" if rng.random() < 0.6 else ".control_flow", ()))]
        if k == "search":
            return self.search(min(depth, 1))
        if k == "add":
            return [("+", self.bel_ground(sc, self.pick(bels)))]
        if k == "del":
            binds = set()
            t = self.bel_pattern(sc, binds, self.pick(bels))
            return [("-", t), ("q", self.probe(".p"))]
        if k == "rep":
            t = self.bel_ground(sc, self.pick(bels))
            if sc.bound and t[2] and rng.random() < self.p["arith"]:
                # The pattern of the old value ignores computed arguments.
                i = rng.randrange(len(t[2]))
                x = v(self.pick(sorted(sc.bound)))
                x = ("uop", "-", x) if rng.random() < 0.6 else ("op", self.pick(["+", "*"]), n(rng.randint(1, 2)), x)
                t = ("l", t[1], t[2][:i] + (x,) + t[2][i + 1:], t[3])
            return [("-+", t)]
        if k in ("sub", "later"):
            f, a = self.pick(goals)
            binds = set()
            args = []
            for _ in range(a):
                if k == "sub" and rng.random() < 0.4:
                    name = self.pick(VARS)
                    args.append(v(name))
                else:
                    args.append(self.value(sc))
            if k == "sub" and rng.random() < 0.25:
                ann = self.annots(sc, True, set())
            else:
                ann = self.annots(sc, False)
            t = ("l", f, tuple(args), ann)
            if k == "later":
                return [("!!", t)]
            return [("!", t), ("q", self.probe(".p"))]
        if k == "test":
            binds = set()
            r = rng.random()
            if self.tests and r < 0.5 and (kind == "goal"):
                f, a = self.pick(self.tests)
                t = ("l", f, tuple(self.pattern(sc, binds) for _ in range(a)), ())
            elif self.rules and r < 0.7:
                f, a = self.pick(self.rules)
                t = ("l", f, tuple(self.pattern(sc, binds) for _ in range(a)), ())
            else:
                t = self.bel_pattern(sc, binds)
            # Make success likely.
            if t[1][0] in "br" and rng.random() < 0.8 - 0.4 * self.p["risk"]:
                return [("if", ("and", ("act", ".q", (self.fid(),)), ("lit", t)),
                         (("?", t), ("q", self.probe(".p"))), None)]
            sc.bound |= binds
            return [("?", t), ("q", self.probe(".p"))]
        if k == "cond":
            q, binds = self.query(sc, self.p["nest"])
            sc2 = Scope(sc.bound | binds)
            then = self.stmts(sc2, rank, depth - 1, kind, rng.randint(1, 2))
            other = self.stmts(sc.copy(), rank, depth - 1, kind, rng.randint(1, 2)) if rng.random() < 0.5 else None
            if other and rng.random() < 0.2:
                then = ()
            elif rng.random() < 0.05:
                other = ()
            return [("if", self.watched(q), then, other), ("q", self.probe(".p"))]
        if k == "loop_for":
            q, binds = self.query(sc, self.p["nest"])
            sc2 = Scope(sc.bound | binds)
            return [("for", self.watched(q), self.stmts(sc2, rank, depth - 1, kind, rng.randint(1, 3)) +
                     (("q", self.probe(".p")),)), ("q", self.probe(".p"))]
        if k == "loop_while":
            self.whiles += 1
            c = "cnt%d" % self.whiles
            name = self.pick([x for x in VARS if x not in sc.bound] or ["N"])
            sc2 = Scope(sc.bound | {name})
            q = ("and", ("lit", lit(c, v(name))), ("cmp", ">", v(name), n(0)))
            body = (("-", lit(c, v(name))),) + self.stmts(sc2, rank, depth - 1, kind, rng.randint(1, 2)) + \
                (("+", lit(c, ("op", "-", v(name), n(1)))), ("q", self.probe(".p")))
            return [("+", lit(c, n(rng.randint(1, 3)))), ("while", self.watched(q), body), ("q", self.probe(".p"))]
        if k == "query":
            q, binds = self.query(sc, 1)
            # Aggregates and total functions always succeed; others are guarded.
            if q[0] == "act" and (q[1] in (".findall", ".count", ".fn", ".conv", ".proc", ".concat", ".sort", ".length") or
                                  (q[1], len(q[2])) in OWN):
                sc.bound |= {b for b in binds if b in VARS}
                return [("q", self.watched(q))]
            if self.chance(self.p["risk"]):
                sc.bound |= binds
                return [("q", self.watched(q))]
            return [("q", self.watched(("or", q, ("true",))))]
        if k == "wait":
            return [("q", ("and", ("act", ".q", (self.fid(),)), ("act", ".wait", (n(self.millis()),)))),
                    ("q", self.probe(".p"))]
        if k == "waitev":
            text = self.event()
            args = (("s", text), n(self.millis())) if rng.random() < self.p.get("timeout", 0.7) else (("s", text),)
            return [("q", ("and", ("act", ".q", (self.fid(),)), ("act", ".wait", args))),
                    ("q", self.probe(".p"))]
        if k in ("send", "bcast"):
            return self.message(sc, rank, k, kind)
        if k == "io":
            return [("q", ("act", ".io", (self.fid(),) + ((self.value(sc),) if rng.random() < 0.5 else ())))]
        if k == "printing":
            return [("q", ("and", ("act", ".q", (self.fid(),)),
                           ("act", ".print", (("s", "m%d" % rng.randint(0, 9)), n(rng.randint(0, 3))))))]
        if k == "fail":
            return [("q", ("and", ("act", ".q", (self.fid(),)), self.pick([
                ("act", ".fail", ()), ("act", ".raise", ()), ("cmp", "<", v("U"), n(1)),
                ("and", ("=", v("V"), lit("a")), ("cmp", "<", v("V"), n(1))),
                ("and", ("=", v("V"), n(0)), ("=", v("U"), ("op", "/", n(1), v("V")))),
                ("and", ("=", v("V"), ("s", "a")), ("=", v("U"), ("op", "+", v("V"), n(1)))), ("lit", lit("nothere", n(1))),
                ("act", ".nth", (n(5), ("t", (n(1),)), v("U"))), ("act", ".wait", (lit("x"),)),
                ("act", ".send", (lit("nobody"), lit("tell"), lit("b0", n(1)))),
            ])))]
        if k == "ungrounded":
            return [self.pick([("+", lit("b0", v("U"))), ("!", lit("nogoal")), ("!!", lit("nogoal", n(1))),
                               ("?", lit("nobelief", v("U"))), ("-+", lit("b0", v("U"))),
                               ("-", lit("b0", ("op", "+", v("U"), n(1)))),
                               ("q", ("=", v("U"), ("op", self.pick(["+", "/", "mod"]), v("V"), n(0)))),
                               ("q", ("and", ("=", v("V"), self.pick([n(1), lit("a")])),
                                      ("=", v("U"), ("op", self.pick(["+", "/", "mod"]), v("V"), n(0))))),
                               ("q", ("and", ("=", v("V"), ("s", "a")), ("=", v("U"), ("uop", "-", v("V")))))])]
        if k == "post":
            return self.post(sc, rank, kind)
        if k == "conv":
            q, binds = self.qatom(sc, set(), 0, []), set()
            return [("q", self.watched(("or", q, ("true",))))]
        if k == "how":
            return self.how(sc, rank, kind)
        if k == "meta":
            if not self.metas or kind != "goal":
                return [("q", self.probe(".p"))]
            binds = set()
            t = self.literal(sc, binds)
            return [("!", lit(self.metas[0][0], t)), ("q", self.probe(".p"))]
        if k == "calc":
            return self.calc()
        if k == "look":
            return self.look()
        if k == "scatter":
            return self.scatter(sc, rank, kind)
        if k == "spawn":
            if rng.random() < self.p.get("despawn", 0.3):
                return [("q", ("act", ".despawn", (lit(self.pick(self.agents + self.others[:3])),)))]
            return [("q", ("act", ".spawn", (n(rng.randrange(self.nag)),)))] if kind == "goal" and rank <= 0 else \
                [("q", self.probe(".p"))]
        if k == "abolish":
            binds = set()
            return [("q", ("and", ("act", ".q", (self.fid(),)),
                           ("act", ".abolish", (self.bel_pattern(sc, binds, self.pick(bels or self.beliefs)),))))]
        raise ValueError(k)

    def millis(self):
        return self.pick([0, 125, 250, 250, 500, 1000, 1000, 2000, 3500, 62.5, 0.5, 1000.25])

    def event(self):
        """An event pattern for .wait."""
        rng = self.rng
        r = rng.random()
        binds = set()
        if r < 0.65 or not self.goals:
            trig, gt = self.pick(["+", "+", "-"]), ""
            f, k = self.pick(self.beliefs)
            ann = self.annots(Scope(), True, set())
        elif r < 0.9 or not self.tests:
            trig, gt = self.pick(["+", "+", "+", "-"]), "!"
            f, k = self.pick(self.goals)
            ann = ()
        else:
            trig, gt = "+", "?"
            f, k = self.pick(self.tests)
            ann = ()
        args = []
        for _ in range(k):
            c = rng.random()
            args.append(v(self.pick(["A", "B"])) if c < 0.4 else ("_",) if c < 0.5 else n(rng.randint(0, 3)))
        if k > 1 and rng.random() < 0.2:
            # Resumes only if both arguments are the same.
            i, j = rng.sample(range(k), 2)
            args[i] = args[j] = v("A")
        head = ("l", f, tuple(args), ann)
        text = trig + gt + (ir.term(head) if rng.random() < 0.7 else ir.styled(ir.term, head, rng.randrange(1 << 30)))
        if rng.random() < 0.2:
            text += "."
        self.events[text] = [trig, gt, head]
        return text

    def receivers(self):
        rng = self.rng
        names = self.agents if rng.random() < 0.96 else self.agents + self.others

        def one():
            x = self.pick(names)
            return lit(x) if rng.random() < 0.6 else ("s", x)
        r = rng.random()
        if r < 0.6:
            return one()
        out = []
        for x in rng.sample(names, rng.randint(1, min(3, len(names)))):
            out.append(lit(x) if rng.random() < 0.6 else ("s", x))
        if rng.random() < self.p.get("unknown", 0.05):
            out.insert(rng.randint(0, len(out)), lit("nobody"))
        if rng.random() < 0.15:
            # Another way to write a list.
            t = ("t", tuple(out[1:]))
            return ("c", out[0], t) if len(out) < 2 or rng.random() < 0.5 else \
                ("c", out[0], ("c", out[1], ("t", tuple(out[2:]))))
        return ("t", tuple(out))

    def message(self, sc, rank, k, kind):
        rng = self.rng
        binds = set()
        goals = [g for i, g in enumerate(self.goals) if i > rank] if kind == "goal" else []
        w = dict(self.p.get("force", dict(tell=4, untell=2, achieve=3, unachieve=0)))
        if not goals:
            w["achieve"] = 0
        if k == "bcast":
            w["unachieve"] = 0
        force = weighted(rng, w)
        if force == "tell":
            bels = self.beliefs if kind != "belief" else [b for i, b in enumerate(self.beliefs) if i > rank]
            if not bels:
                return [("q", self.probe(".p"))]
            content = self.bel_ground(sc, self.pick(bels))
        elif force == "untell":
            bels = self.beliefs if kind != "belief" else [b for i, b in enumerate(self.beliefs) if i > rank]
            if not bels:
                return [("q", self.probe(".p"))]
            content = self.bel_pattern(sc, binds, self.pick(bels))
        else:
            f, a = self.pick(goals if force == "achieve" else self.goals)
            content = ("l", f, tuple(self.value(sc) if rng.random() < (0.8 if force == "achieve" else 0.5)
                                     else v(self.pick(VARS)) for _ in range(a)), self.annots(sc, False))
        name = lit(force)
        if rng.random() < 0.04:
            # Nothing that could be sent.
            if rng.random() < 0.7:
                name = self.pick([lit("advise"), lit("tell", n(1)), ("s", "tell"), n(1), ("l", "tell", (), (lit("a"),)),
                                  lit("achieved"), lit("askOne"), v("U")] + [lit("unachieve")] * (k == "bcast"))
            else:
                content = self.pick([n(1), ("s", "b0(1)"), v("U"), ("t", (lit("b0", n(1)),))])
        if k == "bcast":
            act = ("act", ".broadcast", (name, content))
        else:
            act = ("act", ".send", (self.receivers(), name, content))
        return [("q", ("and", ("act", ".q", (self.fid(),)), act)), ("q", self.probe(".p"))]

    def post(self, sc, rank, kind):
        rng = self.rng
        goals = [g for i, g in enumerate(self.goals) if i > rank] if kind == "goal" else []
        bels = self.beliefs if kind != "belief" else [b for i, b in enumerate(self.beliefs) if i > rank]
        force = weighted(rng, dict(tell=3, untell=2, achieve=3 if goals else 0, unachieve=1, test=1))
        binds = set()
        if force == "tell" and bels:
            c = self.bel_ground(sc, self.pick(bels))
        elif force == "untell" and bels:
            c = self.bel_pattern(sc, binds, self.pick(bels))
        elif force in ("achieve", "unachieve"):
            f, a = self.pick(goals or self.goals)
            c = ("l", f, tuple(self.value(sc) for _ in range(a)), ())
            if force == "unachieve":
                # Never the goals that are running this very action.
                c = ("l", f, tuple(n(7) if rng.random() < 0.3 else x for x in c[2]), ())
        elif self.tests and force == "test":
            f, a = self.pick(self.tests)
            c = ("l", f, (v("X"),), ())
        else:
            return [("q", self.probe(".p"))]
        return [("q", ("act", ".post", (self.fid(), lit(self.pick(self.agents)), lit(force), c))),
                ("q", self.probe(".p"))]

    def calc(self):
        """Nested expressions of numbers and conditions on the result."""
        rng = self.rng
        self.calcs += 1
        a, b = "C%d" % self.calcs, "D%d" % self.calcs
        sc = Scope([a])
        expr = self.arith(sc, 3)

        def cond(depth):
            r = rng.random()
            if depth <= 0 or r < 0.25:
                return ("cmp", self.pick(["<", "<=", ">", ">=", "==", "\\=="]), self.arith(Scope([a, b]), 2),
                        self.arith(Scope([a, b]), 1))
            if r < 0.5:
                return ("not", cond(depth - 1))
            return (self.pick(["and", "or"]), cond(depth - 1), cond(depth - 1))
        out = [("q", ("=", v(a), n(rng.randint(-3, 5)))),
               ("q", ("and", ("=", v(b), expr), ("act", ".p", (self.fid(), v(a), v(b)))))]
        if rng.random() < 0.6:
            out.append(("q", ("or", ("and", cond(3), ("act", ".p", (self.fid(), n(1)))), ("act", ".p", (self.fid(), n(0))))))
        return out

    def look(self):
        """An action sees a variable before and after it is bound."""
        rng = self.rng
        self.calcs += 1
        a, b = "C%d" % self.calcs, "D%d" % self.calcs

        def see():
            t = self.pick([v(a), v(b), lit("f", v(a)), lit("f", v(a), v(b)), ("t", (v(b), v(a))), lit("f", ("t", (v(a),)))])
            r = ("_",) if rng.random() < 0.6 else v("R%d" % self.calcs)
            if rng.random() < 0.3:
                return ("act", ".conv", (n(rng.randint(0, 3)), ("s", "x"), ("t", (t, v(a))), ("_",)))
            return ("act", ".fn", (self.fid(), t, r))
        seen = [("=", v(a), self.pick([n(3), lit("a"), lit("f", v(b)), v(b), ("t", (v(b), n(1)))])), see(), see(), see()]
        rng.shuffle(seen)
        if rng.random() < 0.5:
            seen.insert(rng.randint(1, 4), ("=", v(b), n(4)))
        out, q = [], None
        for x in seen:
            x = ("or", ("and", x, ("act", ".p", (self.fid(), v(a), v(b)))), ("true",))
            q = x if q is None else ("and", q, x)
            if rng.random() < 0.6:
                out.append(("q", q))
                q = None
        return out + ([("q", q)] if q else []) + [("q", self.probe(".p"))]

    def scatter(self, sc, rank, kind):
        """Related messages to several agents."""
        rng = self.rng
        bels = [b for i, b in enumerate(self.beliefs) if b[1] and (kind != "belief" or i > rank)]
        if not bels or self.nag < 2:
            return [("q", self.probe(".p"))]
        b = self.pick(bels)
        binds = set()
        out = []

        def one(act):
            out.append(("q", ("and", ("act", ".q", (self.fid(),)), act)))
        others = rng.sample(self.agents, rng.randint(2, self.nag))
        ann = self.annots(Scope(), False)
        for x in others:
            one(("act", ".send", (lit(x), lit("tell"), ("l", b[0], tuple(self.const() for _ in range(b[1])), ann))))
        out.append(("q", self.probe(".p")))
        if rng.random() < 0.5:
            out.extend(self.stmts(sc, rank, 0, kind, 1))
        name = self.pick([x for x in VARS if x not in sc.bound] or ["N"])
        # The same variable for all of them.
        pat = ("l", b[0], tuple(v(name) if i == 0 or rng.random() < 0.3 else ("_",) for i in range(b[1])),
               () if rng.random() < 0.7 else ann)
        if rng.random() < 0.4:
            one(("act", ".broadcast", (lit("untell"), pat)))
        else:
            one(("act", ".send", (("t", tuple(lit(x) if rng.random() < 0.6 else ("s", x) for x in others)),
                                  lit("untell"), pat)))
        out.append(("q", self.probe(".p")))
        return out

    # -- plan exchange

    def how(self, sc, rank=0, kind="belief"):
        rng = self.rng
        goals = [g for i, g in enumerate(self.goals) if i > rank]
        if kind == "goal" and goals and rng.random() < 0.6:
            # A plan is asked for or told, perhaps forgotten again, and used.
            f, k = self.pick([g for g in goals if self.owners.get(g[0], self.current) != self.current] or goals)
            out = []

            def one(*act):
                out.append(("q", ("and", ("act", ".q", (self.fid(),)), ("act", ".send", act))))
            to = lit(self.owners.get(f) or self.pick(self.agents))
            if to[1] == self.current and rng.random() < 0.9:
                # Asking oneself only repeats what is known.
                return [(self.pick(["!", "!!"]), ("l", f, tuple(self.value(sc) for _ in range(k)), ()))]
            if rng.random() < 0.75:
                head = "+!" + f + ("(%s)" % ", ".join(["_", "X", "Y"][:k]) if k else "")
                self.names[head] = f
                one(to, lit("askHow"), ("s", head))
            else:
                plan = self.plan("+", "!", f, k, self.goals.index((f, k)), "goal")
                text = self.write(plan)
                self.texts[text] = plan
                one(to, lit("tellHow"), ("s", text))
            out.append(("q", self.probe(".p")))
            if self.labels and rng.random() < 0.3:
                one(lit(self.current if rng.random() < 0.8 else self.pick(self.agents)), lit("untellHow"),
                    ("s", "@l" + f[1:] if rng.random() < 0.7 else "@" + self.pick(self.labels)))
            goal = ("l", f, tuple(self.value(sc) for _ in range(k)), ())
            r = rng.random()
            if r < 0.5:
                out.append(("!!", goal))
            elif r < 0.8:
                out.append(("!", goal))
            else:
                one(to, lit("achieve"), goal)
            out.append(("q", self.probe(".p")))
            return out
        r = rng.random()
        if r < 0.4:
            plan = self.told_plan()
            text = self.write(plan)
            if rng.random() < self.p.get("damage", 0.1):
                text = self.damage(text)
                self.texts[text] = None
            else:
                self.texts[text] = plan
            act = (self.receivers(), lit("tellHow"), ("s", text))
        elif r < 0.75:
            trig, gt, f, k = self.pick(self.library)
            head = "%s%s%s" % (trig, gt, f)
            if k:
                head += "(%s)" % ", ".join(["_", "X", "Y"][:k])
            name = f
            if rng.random() < 0.15:
                head, name = "+!nobodyknows", "nobodyknows"
            self.names[head] = name
            act = (self.receivers(), lit("askHow"), ("s", head))
        else:
            label = "@" + self.pick(self.labels + ["nolabel"])
            act = (self.receivers(), lit("untellHow"), ("s", label))
        return [("q", ("and", ("act", ".q", (self.fid(),)), ("act", ".send", act)))]

    def write(self, plan):
        if self.chance(self.p["style"]):
            return ir.styled(ir.plan, plan, self.rng.randrange(1 << 30))
        return ir.plan(plan)

    def told_plan(self):
        return self.plan(*self.pick(self.slots))

    def damage(self, text):
        rng = self.rng
        return self.pick([
            lambda: text[:-1],                                  # no final full stop
            lambda: text + " extra.",                           # more than one plan
            lambda: text.replace("+", "", 1) if text.startswith("+") else "x" + text[1:],
            lambda: text[:-1] + " <- <- .p.",
            lambda: "+!g0 : ) <- .p(1).",
            lambda: "b0(1).",
            lambda: "",
            lambda: "+!g0 <- .p(\"unclosed.",
            lambda: text[:-1] + " }.",
        ])()

    # -- plans

    def plan(self, trig, gt, f, k, rank, kind):
        rng = self.rng
        binds = set()
        args = []
        for _ in range(k):
            r = rng.random()
            if r < self.p.get("var_heads", 0.75):
                name = self.pick(VARS[:2])
                binds.add(name)
                args.append(v(name))
            elif r < 0.8:
                args.append(("_",))
            else:
                args.append(self.const())
        ann = ()
        if kind != "test" and self.chance(self.p["annots"] * 0.6):
            ann = self.annots(Scope(), True)
            if rng.random() < 0.3 and (gt == "" or gt == "!"):
                ann = ann + (lit("source", v("S")),)
        # Goals may be posted with unbound arguments.
        sc = Scope(binds if kind == "belief" else ())
        if kind == "goal":
            sc = Scope(x for x in binds if rng.random() < 0.7)
        context = ("act", ".q", (self.fid(),))
        if self.chance(self.p["context"]):
            q, b = self.query(sc, self.p["nest"])
            context = ("and", context, q)
            sc.bound |= b & set(VARS)
        body = (("q", self.probe(".p")),)
        if kind == "goal" and self.chance(self.p.get("how_first", 0.0)):
            body += tuple(self.how(sc, rank, kind))
        body += self.stmts(sc, rank, self.p["nest"], kind)
        if self.chance(self.p["bare"]):
            while body[-1][0] == "q" and body[-1][1][0] == "act" and body[-1][1][1] == ".p" and len(body) > 1:
                body = body[:-1]
        else:
            body += (("q", self.probe(".p")),)
        label = None
        if rng.random() < self.p["labels"]:
            label = "l%s" % (f[1:] if rng.random() < 0.7 else rng.randint(0, 3))
            if rng.random() < 0.2:
                label += self.pick(["0", "x", "_", "1"])
            if label not in self.labels:
                self.labels.append(label)
        return dict(trig=trig, gt=gt, head=("l", f, tuple(args), ann), context=context, body=body, label=label)

    def owned_plan(self, f, k, i):
        """A plan that others have to ask for."""
        p = self.p
        self.p = merge(p, dict(stmt=dict(how=0.3, cond=4, loop_while=2, loop_for=2, calc=3), context=0.3, how_first=0,
                               var_heads=0.9))
        plan = self.plan("+", "!", f, k, i, "goal")
        self.p = p
        return plan

    def fallback(self, trig, gt, f, k):
        return dict(trig=trig, gt=gt, head=("l", f, tuple(v(x) for x in VARS[:k]), ()),
                    context=("act", ".q", (self.fid(),)), body=(("q", self.probe(".p")),), label=None)

    def agent(self, name):
        rng = self.rng
        self.current = name
        plans = []
        for i, (f, k) in enumerate(self.goals):
            if self.owners.get(f, name) != name:
                continue
            if f not in self.owners and rng.random() < self.p.get("missing", 0.05) * (i > 0 or not self.owners):
                continue
            for _ in range(self.span("plans_per_goal")):
                plans.append(self.owned_plan(f, k, i) if f in self.owners else self.plan("+", "!", f, k, i, "goal"))
            # An initial goal that fails keeps the agent from being created.
            if rng.random() < (0.95 if i < 2 else self.p["fallback"]):
                plans.append(self.fallback("+", "!", f, k))
        for f, k in self.metas:
            for _ in range(rng.randint(1, 2)):
                plans.append(self.meta(f))
        for i, (f, k) in enumerate(self.tests):
            if rng.random() < 0.7:
                p = self.plan("+", "?", f, k, 0, "test")
                # Answer the question.
                if k and p["head"][2][0][0] == "v":
                    x = p["head"][2][0]
                    p["body"] = p["body"] + (("q", ("or", ("=", x, n(rng.randint(0, 3))), ("true",))),)
                plans.append(p)
        for _ in range(self.span("handlers")):
            i = rng.randrange(len(self.beliefs))
            f, k = self.beliefs[i]
            plans.append(self.plan(self.pick(["+", "+", "-"]), "", f, k, i, "belief"))
        if rng.random() < 0.3:
            rng.shuffle(plans)
        rules = []
        for i, (f, k) in enumerate(self.rules):
            for _ in range(rng.randint(1, 2)):
                binds = set()
                q, b = self.query(Scope(), 1, rules=self.rules[:i])
                heads = sorted(b & set(VARS)) or ["X"]
                args = tuple(v(self.pick(heads)) if rng.random() < 0.8 else self.const() for _ in range(k))
                rules.append((("l", f, args, ()), q))
        beliefs = [self.bel_ground(Scope()) for _ in range(rng.randint(0, 5))]
        if self.p["stmt"]["search"] > 0 and rng.random() < (0.3 if self.p["stmt"]["search"] < 1 else 0.9):
            rules += self.srules()
            for _ in range(rng.randint(0, 3)):
                f, k = self.pick(self.spreds()[0])
                beliefs.append(("l", f, tuple(self.sground() for _ in range(k)), ()))
        goals = []
        for _ in range(self.span("initial")):
            f, k = self.goals[rng.randrange(min(2, len(self.goals)))]
            if not any(p["gt"] == "!" and p["head"][1] == f and all(x[0] == "v" for x in p["head"][2]) and
                       not p["head"][3] and p["context"][1] == ".q" for p in plans) and rng.random() < 0.9:
                continue
            goals.append(("l", f, tuple(self.const() for _ in range(k)), ()))
        style = rng.randrange(1 << 30) if self.chance(self.p["style"]) else None
        if name in SOURCES:
            made = self.pick(SOURCES[name])
            if made and rng.random() < 0.3:
                return dict(name=name, source=self.pick(["x", "true", "ag0"]) + ".asl", given_name=made, beliefs=beliefs, rules=rules, goals=goals,
                            plans=plans, style=style)
            return dict(name=name, source=self.pick(["", "", "some/dir.d/", "/x/"]) + (made or "_") + self.pick([".asl", ".asl", ".txt", ""]),
                        beliefs=beliefs, rules=rules, goals=goals, plans=plans, style=style)
        return dict(name=name, beliefs=beliefs, rules=rules, goals=goals, plans=plans, style=style)

    # -- clocks

    def driver(self):
        """How clock and sleep behave in the real run loops."""
        rng = self.rng
        d = dict(seed=rng.randrange(1 << 30))
        d["epoch"] = self.pick([1000.0, 1000.0, 0.0, -5000.0, 0.125, 1.7e9, 2.0 ** 31 - 3, 2.0 ** 32, -2.0 ** 31, 1e12, -1e12])
        d["tick"] = -10 if abs(d["epoch"]) > 1e8 else self.pick([-20, -20, -10, -7])
        if rng.random() < 0.2:
            d["epoch"], d["snap"] = self.pick([-5.0, -4.0, -20.0]), 0.1
        elif rng.random() < 0.3:
            d["tick"] = None
            if rng.random() < 0.7:
                d["epoch"] = self.pick([-0.125, -0.25, -0.25, -0.5, -1.0, -1.0, -2.0, -3.5])
        for k, x in (("jitter", 0.05), ("early", 0.15), ("late", 0.2), ("at once", 0.1), ("back", 0.1), ("interrupt", 0.1)):
            if rng.random() < 0.35:
                d[k] = x * (2 if rng.random() < 0.3 else 1)
        return d

    # -- operations

    def op(self):
        rng = self.rng
        k = weighted(rng, self.p["op"])
        i = rng.randrange(8)
        if k == "step":
            return ["step", i]
        if k == "run":
            return ["run", i, rng.randint(2, 12)]
        if k == "adv":
            return ["adv", self.pick([125, 125, 250, 500, 1000, 5000])]
        if k == "back":
            return ["adv", -self.pick([125, 250, 1000, 5000])]
        if k == "jump":
            return ["jump"]
        if k == "jumpeq":
            return ["jumpeq"]
        if k == "host":
            return self.host_op(i)
        if k == "net":
            return ["net", rng.randrange(6), weighted(rng, self.p.get("netw", dict(deliver=6, dup=1, drop=1)))]
        if k == "create":
            return ["create", rng.randrange(self.nag), None if rng.random() < 0.6 else rng.randint(1, 3)]
        if k == "kill":
            return ["kill", i]
        if k == "dump":
            return ["dump", i]
        if k == "envrun":
            return ["envrun"]
        if k in ("runagent", "agentrun"):
            return [k, i]
        if k == "arm":
            return ["arm", self.pick(["io", "io", "print"]), rng.randrange(24)]
        raise ValueError(k)

    def host_op(self, i):
        rng = self.rng
        w = self.p.get("hostw", dict(add=3, rem=3, goal=3, stop=0, test=1))
        k = weighted(rng, w)
        binds = set()
        if k == "add":
            return ["host", i, "+", "", self.bel_ground(Scope())]
        if k == "rem":
            return ["host", i, "-", "", self.bel_pattern(Scope(), binds)]
        if k == "goal" or k == "stop":
            f, a = self.pick([g for g in self.goals if g[0] not in self.owners] if rng.random() < 0.8 else self.goals)
            args = tuple(self.const() if rng.random() < 0.7 else v(self.pick(VARS)) for _ in range(a))
            return ["host", i, "+" if k == "goal" else "-", "!", ("l", f, args, self.annots(Scope(), False))]
        f, a = self.pick(self.tests or self.beliefs)
        return ["host", i, "+", "?", ("l", f, tuple(self.pattern(Scope(), binds) for _ in range(a)), ())]

    def ops(self):
        rng = self.rng
        out = []
        total = self.span("nops")
        if rng.random() < self.p["burst"]:
            # Priority schedule: one agent at a time, changing now and then.
            prio = list(range(8))
            rng.shuffle(prio)
            while len(out) < total:
                if rng.random() < 0.35:
                    out.append(self.op())
                else:
                    out.append(["run", prio[0], rng.randint(1, 6)])
                if rng.random() < 0.3:
                    prio.append(prio.pop(0))
        else:
            while len(out) < total:
                out.append(self.op())
        return out

    def case(self):
        self.setup()
        self.library = [("+", "!", f, k) for f, k in self.goals] + [("+", "", f, k) for f, k in self.beliefs]
        self.slots = [("+", "!", f, k, i, "goal") for i, (f, k) in enumerate(self.goals)] + \
            [("+", "", f, k, i, "belief") for i, (f, k) in enumerate(self.beliefs)]
        agents = [self.agent(a) for a in self.agents]
        build = []
        for i in range(self.nag):
            build.append([i, self.rng.randint(1, 3) if self.rng.random() < self.p["clones"] else None])
        driver = None
        if self.chance(self.p["driver"]):
            driver = self.driver()
            if self.p["driver"] < 1:
                self.p = merge(self.p, dict(nops=(3, 9), op=dict(envrun=5, runagent=1, agentrun=0.5, jump=0, jumpeq=0)))
        ops = self.ops()
        epoch = self.pick([-0.125, -0.25, -0.5, -0.5, -1.0, -1.0, -2.0, 0.0, 2.0 ** 31, -1e6]) if self.chance(0.15) else 1000.0
        return dict(epoch=epoch, driver=driver, seed=self.seed, transport=self.rng.random() < self.p["transport"], agents=agents, build=build,
                    events=self.events, texts=self.texts, names=self.names, ops=ops, settle=self.p.get("settle", 2500))


RICH = ("num", "num", "atom", "str", "list", "struct")

PROFILES = {
    "C01": dict(stmt=dict(search=1, wait=1.0, later=2, loop_for=1.5, loop_while=1.5, query=0.5, send=0.5), op=dict(jump=2, host=3),
                hostw=dict(add=2, rem=1, goal=6, stop=1, test=1)),
    "C02": dict(labels=0.3, shared=0.3, arity0=0.1, plans_per_goal=(2, 4), handlers=(2, 6), context=0.75, annots=0.3, var_heads=0.5, body=(0, 2), nest=2,
                missing=0.15, values=("num", "num", "atom"), tests=(1, 2), initial=(1, 3),
                stmt=dict(sub=5, later=3, add=4, rep=2, test=3, loop_for=0.4, loop_while=0.2, cond=0.5, send=1.5,
                          wait=0.3, query=0.3),
                op=dict(host=5, run=3, step=8)),
    "C03": dict(truth=0.07, nested=0.6, annots=0.2, agents=(1, 2), nest=3, values=("num", "num", "num", "list", "struct"), rules=(1, 3), body=(2, 4),
                stmt=dict(loop_for=4, loop_while=3, cond=4, query=4, sub=4, later=2, add=2, test=2, wait=0.7, send=0.4,
                          rep=0.5, meta=1, calc=0.3, search=5, ungrounded=0.25),
                query=dict(bel=4, rule=4, neg=3, alt=3, conj=4, member=3, range=1, findall=2, count=2, listop=1,
                           typetest=2, substring=1, eq=3, action_fail=0.3, fn=0.5),
                hostw=dict(add=1, rem=0.5, goal=8, stop=0, test=1), initial=(2, 4), op=dict(jump=2, host=5), var_heads=0.9, context=0.5),
    "C04": dict(arity0=0.25, arith=0.2, annots=0.4, values=RICH + ("bool", "frac"), beliefs=(2, 3), handlers=(0, 3), body=(2, 5), nest=1,
                stmt=dict(add=8, **{"del": 7}, rep=5, abolish=3, query=2, sub=2, later=2, test=2, send=2, loop_for=1,
                          loop_while=0.3, cond=1, wait=0.3),
                query=dict(cmp=0, findall=3, count=3, bel=6, neg=1, alt=0.5, conj=1),
                hostw=dict(add=5, rem=5, goal=2, stop=0, test=1), op=dict(host=5),
                force=dict(tell=4, untell=4, achieve=1, unachieve=0)),
    "C05": dict(beliefs=(2, 3), nest=2, body=(1, 3), initial=(1, 3), rules=(0, 2), handlers=(0, 2), context=0.3,
                stmt=dict(loop_for=6, loop_while=0.2, add=4, **{"del": 4}, rep=2, abolish=1, later=2, sub=2, wait=1.0,
                          send=1, cond=0.5, query=0.5, p=3, meta=4, search=1.5),
                query=dict(bel=10, rule=3, conj=4, alt=2, neg=0.5, cmp=0.5, eq=0.5, member=0.3, range=0.3, findall=0.3,
                           count=0.3),
                hostw=dict(add=6, rem=6, goal=1, stop=0, test=0), op=dict(host=6, jump=2)),
    "C06": dict(arity0=0.1, agents=(2, 4), transport=0.4, clones=0.1, values=RICH, annots=0.2, body=(1, 3), handlers=(1, 4), nest=1,
                unknown=0.15, stmt=dict(scatter=3, send=10, bcast=4, sub=2, later=1, add=1, **{"del": 1}, cond=1, loop_for=1,
                                        loop_while=0.2, query=0.5, wait=0.5),
                query=dict(cmp=0.3), force=dict(tell=5, untell=3, achieve=4, unachieve=0.5),
                op=dict(net=10, host=1, kill=0.2, create=0.2), netw=dict(deliver=8, dup=1, drop=1)),
    "C07": dict(agents=(1, 3), body=(1, 4), nest=1, initial=(2, 4), handlers=(1, 3), tests=(0, 2),
                stmt=dict(send=4, sub=6, later=4, wait=3, waitev=1, p=4, add=2, loop_for=1.5, loop_while=1, test=1.5,
                          io=0.5),
                force=dict(tell=0.5, untell=0.3, achieve=2, unachieve=7),
                hostw=dict(add=1, rem=0.5, goal=3, stop=6, test=0.5), op=dict(host=5, jump=2), transport=0.2,
                netw=dict(deliver=1)),
    "C08": dict(agents=(2, 3), body=(1, 3), nest=2, labels=0.5, handlers=(1, 3), missing=0.4, transport=0.2,
                fallback=0.3, arith=0.25, goals=(3, 4), bare=0.3, specialist=0.8, how_first=0.7, context=0.35, var_heads=0.9,
                annots=0.15, plans_per_goal=(1, 2), values=("num", "num", "atom", "str", "list", "struct"),
                stmt=dict(how=6, sub=4, later=3, add=2, loop_for=1, loop_while=1.5, cond=2.5, wait=0.5, test=0.5, query=1, calc=1.5,
                          printing=0.3, conv=0.5),
                query=dict(listop=1, fn=1, typetest=0.5, cmp=1),
                op=dict(host=4, net=3), netw=dict(deliver=8, dup=1, drop=1), initial=(1, 3)),
    "C09": dict(stmt=dict(wait=8, waitev=1.5, later=3, sub=3, loop_for=1.5, loop_while=1, add=1, send=0.3), body=(1, 4),
                initial=(1, 3), op=dict(adv=5, back=1, jump=3, jumpeq=2, host=2, step=12)),
    "C10": dict(shared=0.4, arity0=0.15, agents=(1, 3), annots=0.2, stmt=dict(waitev=7, wait=1, add=4, **{"del": 3}, later=3, sub=3, test=1, send=2,
                                                      rep=1, p=3),
                body=(1, 4), initial=(1, 3), timeout=0.6, handlers=(0, 2), tests=(0, 2),
                force=dict(tell=4, untell=2, achieve=3, unachieve=1.5),
                op=dict(host=6, adv=2, jump=1, jumpeq=0.5, back=0.2), hostw=dict(add=4, rem=3, goal=3, stop=1, test=2)),
    "C11": dict(agents=(1, 4), body=(1, 3), initial=(1, 2), clones=0.2, driver=1.0, handlers=(0, 2), nops=(3, 9),
                timeout=0.8, burst=0.0,
                stmt=dict(wait=5, waitev=1, later=2, send=2, loop_for=1, loop_while=0.7, fail=0.3, spawn=0.4,
                          sub=3, add=2),
                force=dict(tell=3, untell=1, achieve=4, unachieve=1.5),
                op=dict(step=0.5, run=0.5, envrun=5, runagent=2, agentrun=1, host=3, adv=1, create=0.6, kill=0.3, jump=0,
                        jumpeq=0),
                hostw=dict(add=2, rem=1, goal=4, stop=1, test=1)),
    "C12": dict(truth=0.06, bare=0.5, agents=(1, 3), body=(1, 4), missing=0.3, risk=0.5, initial=(1, 4), values=("num", "num", "atom"),
                stmt=dict(look_at=0.5, fail=3, ungrounded=2.5, calc=0.3, io=6, printing=3, sub=5, later=3, loop_for=1.5, loop_while=1, add=3,
                          **{"del": 2}, test=2, wait=0.7, send=2, query=2),
                unknown=0.3, query=dict(cmp=4, action_fail=0.5, err=1.2), op=dict(arm=5, host=3, dump=0.5)),
    "C13": dict(agents=(1, 2), clones=0.9, body=(1, 3), labels=0.4, rules=(0, 2), values=RICH,
                stmt=dict(how=1, add=3, **{"del": 2}, rep=1, sub=3, later=2, send=1.5, bcast=0.5, wait=0.5, loop_for=1,
                          loop_while=0.5, abolish=0.5),
                query=dict(cmp=0.3), op=dict(create=1.5, host=3)),
    "C17": dict(agents=(1, 3), body=(1, 3), clones=0.2, handlers=(0, 3),
                settle=900, driver=0.4,
                stmt=dict(spawn=2.5, send=3, bcast=2.5, sub=3, later=2, add=1, wait=1, loop_for=1, loop_while=0.3),
                op=dict(create=3, kill=2, host=2, net=2, run=2, jump=1), transport=0.3, netw=dict(deliver=1),
                given=0.6),
    "C18": dict(agents=(1, 3), body=(1, 4), rules=(1, 2), nest=2, values=("num", "num", "atom", "struct"),
                stmt=dict(search=1.5, post=6, look=1.5, look_at=0.8, conv=3, query=4, cond=2, loop_for=3, sub=3, later=1, wait=0.7, io=1, add=1, test=1,
                          send=0.5),
                query=dict(gen=4, fn=6, bel=3, rule=3, conj=4, alt=2, neg=2, findall=1, count=1, cmp=0.5),
                op=dict(host=5, dump=1.5, arm=0.3), hostw=dict(add=3, rem=3, goal=4, stop=1, test=2), risk=0.2),
}


def generate(profile, seed):
    return Gen(seed, PROFILES[profile]).case()
