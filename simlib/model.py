"""Executable reference model: an independent interpreter of the program IR.

States are immutable. A micro step executes one formula (or control marker, or
completion) of one intention. Nondeterminism that the language leaves open (the
order in which beliefs are enumerated, which of several matching beliefs is
removed) goes through a chooser; observations go through Tx.emit, which prunes
executions that do not match what the real system was seen to do.
"""
import datetime
import math
from collections import namedtuple

from .seams import annotations


class Prune(Exception):
    """This branch of the model does not match the observations."""


class Fail(Exception):
    """The formula fails: the intention must be reported and end."""


class Inconclusive(Exception):
    """The workload left the fragment the model defines."""


Plan = namedtuple("Plan", "pid trig gt head context body label text")
Rule = namedtuple("Rule", "head query")


def cached(cls):
    """States are compared and hashed all the time."""
    base = cls.__hash__

    class Cached(cls):
        def __hash__(self):
            try:
                return self._h
            except AttributeError:
                self._h = h = base(self)
                return h
    Cached.__name__ = cls.__name__
    return Cached


Inst = cached(namedtuple("Inst", "id env cont wait gt ev call"))
Int = cached(namedtuple("Int", "id stack"))
Ag = cached(namedtuple("Ag", "name bb ints plans rules"))
# Message of the host-provided transport.
Msg = namedtuple("Msg", "sender to trig gt content")
State = cached(namedtuple("State", "ags next net"))

TRUE = ("true",)
EMPTY = ()


class Env(dict):
    """Variable bindings; never modified after construction is complete."""

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = h = hash(frozenset(self.items()))
            return h


NOENV = Env()


def tup(x):
    """JSON lists to tuples."""
    if isinstance(x, (list, tuple)):
        return tuple(tup(i) for i in x)
    return x


# ---------------------------------------------------------------- terms

def is_var(t):
    return t[0] == "v"


def walk(t, env):
    while t[0] == "v":
        n = env.get(t[1])
        if n is None:
            return t
        t = n
    return t


def num(t):
    if t[0] != "n":
        raise Fail("number expected")
    return t[1]


def near(x, y):
    """Equal but for rounding: not decided by the property."""
    return abs(x - y) <= 4 * math.ulp(max(abs(x), abs(y), 1.0))


def passed(until, now):
    return until < now and not near(until, now)


def conv(t, kind):
    """The documented argument conversions: int(x) and float(x) of a Python value."""
    try:
        if t[0] == "s":
            return kind(t[1])
        if t[0] == "b":
            raise Inconclusive("conversion of a truth value")
        return kind(num(t))
    except (ValueError, OverflowError):
        raise Fail("conversion")


def own_action(name, arity):
    """Which of the host's own actions hides the others of that name."""
    if (name, arity) in ((".print", 5), (".print", 6), (".concat", 2), (".member", 3), (".my_name", 2), (".fail", 1), (".concat", 1), (".p", 8)):
        return name
    if name == ".lv":
        return {1: "low1", 2: "high2"}.get(arity, "low")
    if name == ".top":
        return "high2" if arity == 2 else "high"


def evaluate(t, env):
    k = t[0]
    if k == "v":
        t = walk(t, env)
        return t if t[0] == "v" else evaluate(t, env)
    if k == "op":
        l, r = evaluate(t[2], env), evaluate(t[3], env)
        if t[1] in ("&", "|"):
            l, r = truth(l), truth(r)
            return ("b", (l and r) if t[1] == "&" else (l or r))
        if t[1] in ARITH:
            return arith(t[1], l, r)
        return ("b", compare(t[1], grounded(l, env), grounded(r, env)))
    if k == "uop" and t[1] == "not":
        return ("b", not truth(evaluate(t[2], env)))
    if k == "uop":
        return ("n", -num(evaluate(t[2], env)))
    return t


def settled(q):
    """A disjunction of constant queries of which both sides hold."""
    return q[0] == "or" and constant_query(q[1]) is True and constant_query(q[2]) is True


def constant_query(q):
    """The truth value of a query without terms to be looked up, or None."""
    k = q[0]
    if k in ("true", "false"):
        return k == "true"
    if k == "not":
        a = constant_query(q[1])
        return None if a is None else not a
    if k in ("and", "or"):
        a, b = constant_query(q[1]), constant_query(q[2])
        return None if a is None or b is None else (a and b) if k == "and" else (a or b)
    if k == "cmp" and q[2][0] == q[3][0] and q[2][0] in "nsb":
        return compare(q[1], q[2], q[3]) if q[2][0] != "b" or q[1] in ("==", "\\==") else None
    return None


ARITH = ("+", "-", "*", "/", "div", "mod", "**")


def truth(t):
    if t[0] != "b":
        raise Fail("truth value expected")
    return t[1]


def arith(op, l, r):
    a, b = num(l), num(r)
    try:
        if op == "+":
            v = a + b
        elif op == "-":
            v = a - b
        elif op == "*":
            v = a * b
        elif op == "/":
            v = a / b
        elif op == "div":
            v = a // b
        elif op == "mod":
            v = a % b
        elif op == "**":
            v = a ** b
        else:
            raise Inconclusive(op)
    except ZeroDivisionError:
        raise Fail("division by zero")
    except OverflowError:
        raise Fail("overflow")
    if not isinstance(v, float) or v != v or abs(v) > 1e15:
        raise Inconclusive("large number")
    return ("n", v)


def norm_list(head, tail):
    if tail[0] == "t":
        return ("t", (head,) + tail[1])
    return ("c", head, tail)


def grounded(t, env):
    k = t[0]
    if k == "v":
        w = walk(t, env)
        if w[0] == "v":
            raise Fail("not ground")
        return grounded(w, env)
    if k == "_":
        raise Fail("wildcard")
    if k == "l":
        return ("l", t[1], tuple(grounded(a, env) for a in t[2]), annset(grounded(a, env) for a in t[3]))
    if k == "t":
        return ("t", tuple(grounded(a, env) for a in t[1]))
    if k == "c":
        return norm_list(grounded(t[1], env), grounded(t[2], env))
    if k in ("op", "uop"):
        return grounded(evaluate(t, env), env)
    return t


def annset(it):
    return tuple(sorted(set(it), key=repr))


def is_ground(t, env):
    k = t[0]
    if k == "v":
        w = walk(t, env)
        return w[0] != "v" and is_ground(w, env)
    if k == "_":
        return False
    if k == "l":
        return all(is_ground(a, env) for a in t[2]) and all(is_ground(a, env) for a in t[3])
    if k == "t":
        return all(is_ground(a, env) for a in t[1])
    if k == "c":
        return is_ground(t[1], env) and is_ground(t[2], env)
    if k == "op":
        return is_ground(t[2], env) and is_ground(t[3], env)
    if k == "uop":
        return is_ground(t[2], env)
    return True


def freeze(t, env, memo, fresh):
    k = t[0]
    memo[None] = memo.get(None, 0) + 1
    if memo[None] > 4000:
        raise Inconclusive("large term")
    if k == "v":
        w = walk(t, env)
        if w[0] == "v":
            if w[1] not in memo:
                memo[w[1]] = ("v", fresh())
            return memo[w[1]]
        return freeze(w, env, memo, fresh)
    if k == "l":
        return ("l", t[1], tuple(freeze(a, env, memo, fresh) for a in t[2]),
                annset(freeze(a, env, memo, fresh) for a in t[3]))
    if k == "t":
        return ("t", tuple(freeze(a, env, memo, fresh) for a in t[1]))
    if k == "c":
        return norm_list(freeze(t[1], env, memo, fresh), freeze(t[2], env, memo, fresh))
    if k in ("op", "uop"):
        return freeze(evaluate(t, env), env, memo, fresh)
    return t


def show(t, env, names):
    """Canonical form of an observed term (as seams.canon for real terms)."""
    k = t[0]
    if k == "v":
        w = walk(t, env)
        if w[0] == "v":
            if w[1] not in names:
                names[w[1]] = len(names)
            return ("v", names[w[1]])
        return show(w, env, names)
    if k == "l":
        return ("l", t[1], tuple(show(a, env, names) for a in t[2]),
                annotations(t[3], lambda a, names: show(a, env, names), names))
    if k == "t":
        return ("t", tuple(show(a, env, names) for a in t[1]))
    if k == "c":
        return norm_list(show(t[1], env, names), show(t[2], env, names))
    if k in ("op", "uop"):
        return show(evaluate(t, env), env, names)
    return t


def unify_in(l, r, e):
    """Unifies destructively in the dict e. Returns success."""
    k = l[0]
    if k == "v":
        if l[1] in e:
            return unify_in(walk(l, e), r, e)
        if r[0] == "_":
            return True
        r = evaluate(r, e)
        if r == l:
            return True
        e[l[1]] = r
        return True
    if k == "_":
        return True
    if k in ("op", "uop"):
        return unify_in(evaluate(l, e), r, e)
    rk = r[0]
    if rk == "v" or rk in ("op", "uop"):
        r = evaluate(r, e)
        rk = r[0]
    if rk == "_":
        return True
    if rk == "v":
        return unify_in(r, l, e)
    if k == "l":
        return (rk == "l" and l[1] == r[1] and len(l[2]) == len(r[2]) and
                all(unify_in(a, b, e) for a, b in zip(l[2], r[2])))
    if k == "c":
        if rk == "t":
            return (len(r[1]) >= 1 and unify_in(l[1], r[1][0], e) and
                    unify_in(l[2], ("t", r[1][1:]), e))
        if rk == "c":
            return unify_in(l[1], r[1], e) and unify_in(l[2], r[2], e)
        return False
    if k == "t":
        if rk == "c":
            return unify_in(r, l, e)
        return (rk == "t" and len(l[1]) == len(r[1]) and
                all(unify_in(a, b, e) for a, b in zip(l[1], r[1])))
    return l == r


def unify(l, r, env):
    e = Env(env)
    return e if unify_in(l, r, e) else None


def unify_annotated(l, r, env, ch):
    """Annotations of l need distinct matching annotations of r."""
    r = evaluate(r, env)
    if l[0] != "l" or r[0] != "l":
        return unify(l, r, env)
    e = unify(l, r, env)
    if e is None:
        return None
    # Annotations form a set, in which the same one does not occur twice.
    left = [a for i, a in enumerate(l[3]) if a not in l[3][:i] or anonymous(a)]
    right = [a for i, a in enumerate(r[3]) if a not in r[3][:i] or anonymous(a)]
    while left:
        i = ch.choose(len(left)) if len(left) > 1 and overlapping(left, right, e) else 0
        a = left.pop(i)
        options = [(j, unify_annotated(a, b, e, ch)) for j, b in enumerate(right)]
        options = [(j, f) for j, f in options if f is not None]
        if not options:
            return None
        j, e = options[ch.choose(len(options))]
        del right[j]
    return e


def anonymous(t):
    """Whether the term contains a wildcard, each of which is its own."""
    return t == ("_",) or any(anonymous(x) for x in t if isinstance(x, tuple))


def overlapping(left, right, e):
    for b in right:
        if sum(1 for a in left if unify(a, b, e) is not None) > 1:
            return True
    return False


def rename(t, m, fresh):
    """Renames program variables (rules are used at most once per call)."""
    k = t[0]
    if k == "v":
        if t[1] not in m:
            m[t[1]] = ("v", fresh())
        return m[t[1]]
    if k == "l":
        return ("l", t[1], tuple(rename(a, m, fresh) for a in t[2]), tuple(rename(a, m, fresh) for a in t[3]))
    if k == "t":
        return ("t", tuple(rename(a, m, fresh) for a in t[1]))
    if k == "c":
        return ("c", rename(t[1], m, fresh), rename(t[2], m, fresh))
    if k == "op":
        return ("op", t[1], rename(t[2], m, fresh), rename(t[3], m, fresh))
    if k == "uop":
        return ("uop", t[1], rename(t[2], m, fresh))
    return t


def rename_query(q, m, fresh):
    k = q[0]
    if k in ("and", "or"):
        return (k, rename_query(q[1], m, fresh), rename_query(q[2], m, fresh))
    if k == "not":
        return (k, rename_query(q[1], m, fresh))
    if k == "=":
        return (k, rename(q[1], m, fresh), rename(q[2], m, fresh))
    if k == "cmp":
        return (k, q[1], rename(q[2], m, fresh), rename(q[3], m, fresh))
    if k == "lit":
        return (k, rename(q[1], m, fresh))
    if k == "var":
        return (k, rename(q[1], m, fresh))
    if k == "act":
        return (k, q[1], tuple(rename(a, m, fresh) for a in q[2]))
    return q


def asl_str(t):
    k = t[0]
    if k == "b":
        return "true" if t[1] else "false"
    if k == "n":
        v = t[1]
        return str(int(v)) if v.is_integer() else str(v)
    if k == "s":
        return t[1]
    if k == "t":
        return "[%s]" % ", ".join(asl_str(a) for a in t[1])
    if k == "l" and not t[3]:
        return asl_repr(t)
    raise Inconclusive("text of %s" % k)


def asl_repr(t):
    k = t[0]
    if k == "s":
        return '"%s"' % t[1]
    if k == "t":
        return "[%s]" % ", ".join(asl_repr(a) for a in t[1])
    if k == "l":
        if len(t[3]) > 1:
            raise Inconclusive("text of annotations")
        return t[1] + ("(%s)" % ", ".join(asl_repr(a) for a in t[2]) if t[2] else "") + \
            ("[%s]" % ", ".join(asl_repr(a) for a in t[3]) if t[3] else "")
    return asl_str(t)


def compare(op, l, r):
    if op in ("==", "\\=="):
        for a, b in ((l, r), (r, l)):
            if a[0] == "b" and b[0] == "n":
                raise Inconclusive("bool and number")
        return (l == r) == (op == "==")
    if l[0] == r[0] and l[0] in ("n", "s"):
        a, b = l[1], r[1]
    elif l[0] == r[0] == "l" and not (l[2] or l[3] or r[2] or r[3]):
        a, b = l[1], r[1]
    else:
        kinds = set((l[0], r[0]))
        if kinds <= set("nslt") and len(kinds) == 2:
            raise Fail("incomparable")
        raise Inconclusive("comparison")
    return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]


# ---------------------------------------------------------------- execution

class Chooser:
    """Replays a prefix of decisions, then always takes option 0."""

    def __init__(self, prefix):
        self.prefix = prefix
        self.trace = []

    def choose(self, n):
        if n <= 1:
            return 0
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((c, n))
        return c

    def next_prefix(self):
        t = self.trace
        i = len(t) - 1
        while i >= 0 and t[i][0] + 1 >= t[i][1]:
            i -= 1
        if i < 0:
            return None
        return [c for c, _ in t[:i]] + [t[i][0] + 1]


class Tx:
    """One atomic model transition, guided by the observed log."""

    def __init__(self, env, state, log, pos, ch, now):
        self.menv = env          # static: transport mode, parsing of plan texts
        self.ags = dict(state.ags)
        self.net = list(state.net)
        self.next = state.next
        self.log = log
        self.pos = pos
        self.ch = ch
        self.now = now

    def state(self):
        return State(tuple(self.ags.items()), self.next, tuple(self.net))

    def fresh(self):
        self.next += 1
        return self.next

    def emit(self, *entry):
        if self.pos >= len(self.log) or self.log[self.pos] != entry:
            raise Prune()
        self.pos += 1

    def guided(self, *entry):
        """An observation whose last component is decided by the world."""
        if self.pos >= len(self.log):
            raise Prune()
        seen = self.log[self.pos]
        if seen[:-1] != entry:
            raise Prune()
        self.pos += 1
        return seen[-1]

    # -- queries

    def solve(self, ag, goals, env, cps, inst):
        """First solution of goals, or of the choice points. -> (env, cps) or None."""
        while True:
            if goals is None:
                return env, cps
            if goals is False:
                if cps is None:
                    return None
                cp, cps = cps
                if cp[0] == "goals":
                    _, goals, env = cp
                elif cp[0] == "match":
                    _, arg, items, env, rest = cp
                    if len(items) > 1:
                        cps = (("match", arg, items[1:], env, rest), cps)
                    e = unify(arg, items[0], env)
                    if e is None:
                        goals = False
                    else:
                        env, goals = e, rest
                elif cp[0] == "scan":
                    _, cands, rest = cp
                    i = self.ch.choose(len(cands))
                    env = cands[i]
                    goals = rest
                    left = cands[:i] + cands[i + 1:]
                    if left:
                        cps = (("scan", left, rest), cps)
                elif cp[0] == "rules":
                    _, t, rules, env, rest = cp
                    if len(rules) > 1:
                        cps = (("rules", t, rules[1:], env, rest), cps)
                    m = {}
                    head = rename(rules[0].head, m, self.fresh)
                    e = unify(t, head, env)
                    if e is None:
                        goals = False
                    else:
                        env = e
                        goals = (rename_query(rules[0].query, m, self.fresh), rest)
                elif cp[0] == "gen":
                    _, name, gid, arg, n, i, env, rest, agname = cp
                    if i >= n:
                        self.emit("gen-end", agname, gid)
                        goals = False
                    else:
                        cps = (("gen", name, gid, arg, n, i + 1, env, rest, agname), cps)
                        self.emit("gen", agname, gid, i)
                        e = unify(arg, ("n", float(i)), env)
                        if e is None:
                            goals = False
                        else:
                            env, goals = e, rest
                else:
                    raise AssertionError(cp)
                continue
            q, rest = goals
            k = q[0]
            if k == "true":
                goals = rest
            elif k == "false":
                goals = False
            elif k == "and":
                goals = (q[1], (q[2], rest))
            elif k == "or":
                # Constants may have been combined when the program was read.
                if not (settled(q) and self.ch.choose(2)):
                    cps = (("goals", (q[2], rest), env), cps)
                goals = (q[1], rest)
            elif k == "not":
                goals = False if self.solve(ag, (q[1], None), env, None, inst) is not None else rest
            elif k == "=":
                e = unify_annotated(q[1], q[2], env, self.ch)
                if e is None:
                    goals = False
                else:
                    env, goals = e, rest
            elif k == "cmp":
                l = grounded(evaluate(q[2], env), env)
                r = grounded(evaluate(q[3], env), env)
                goals = rest if compare(q[1], l, r) else False
            elif k in ("lit", "var"):
                goals, env, cps = self.query_literal(ag, q[1], env, rest, cps)
            elif k == "act":
                goals, env, cps = self.action(ag, q[1], q[2], env, rest, cps, inst)
            else:
                raise AssertionError(q)

    def query_literal(self, ag, term, env, rest, cps):
        t = evaluate(term, env)
        if t[0] == "b":
            return (rest if t[1] else False), env, cps
        if t[0] != "l":
            raise Fail("literal expected")
        a = self.ags[ag]
        key = (t[1], len(t[2]))
        rules = tuple(r for r in a.rules if (r.head[1], len(r.head[2])) == key)
        if rules:
            cps = (("rules", t, rules, env, rest), cps)
        cands = []
        for b in group(a.bb, *key):
            e = unify_annotated(t, b, env, self.ch)
            if e is not None:
                cands.append(e)
        if cands:
            cps = (("scan", tuple(cands), rest), cps)
        return False, env, cps

    def action(self, ag, name, args, env, rest, cps, inst):
        ok = (rest, env, cps)
        no = (False, env, cps)

        def bind(pairs):
            e = Env(env)
            for l, r in pairs:
                if not unify_in(l, r, e):
                    return no
            return rest, e, cps

        tag = own_action(name, len(args))
        if tag:
            names = {}
            self.emit("own", tag, ag, *[show(a, env, names) for a in args])
            return ok
        if name in (".p", ".q", ".r"):
            names = {}
            self.emit(name, ag, *[show(a, env, names) for a in args])
            return ok
        if name == ".io":
            names = {}
            if self.guided(name, ag, *[show(a, env, names) for a in args]) != "ok":
                raise Fail("device")
            return ok
        if name == ".print":
            text = " ".join(asl_str(grounded(a, env)) for a in args)
            if self.guided("print", ag, text) != "ok":
                raise Fail("device")
            return ok
        if name == ".fail":
            return no
        if name == ".dump":
            return ok
        if name == ".control_flow":
            if self.guided("graph", ag) != "ok":
                raise Fail("device")
            return ok
        if name == ".raise":
            self.emit(name, ag)
            raise Fail("raised")
        if name == ".my_name":
            return bind([(args[0], ("l", ag, EMPTY, EMPTY))])
        if name == ".member":
            lst = evaluate(args[1], env)
            if lst[0] != "t":
                raise Inconclusive("member of %s" % lst[0])
            if lst[1]:
                cps = (("match", args[0], lst[1], env, rest), cps)
            return False, env, cps
        if name == ".range":
            n = conv(grounded(args[0], env), int)
            if n > 0:
                cps = (("match", args[1], tuple(("n", float(i)) for i in range(n)), env, rest), cps)
            return False, env, cps
        if name == ".substring":
            a, b = asl_str(grounded(args[0], env)), asl_str(grounded(args[1], env))
            hits = [i for i in range(len(b) + 1) if b.startswith(a, i)]
            if hits:
                cps = (("match", args[2], tuple(("n", float(i)) for i in hits), env, rest), cps)
            return False, env, cps
        if name in (".findall", ".count", ".sum"):
            q = args[0] if name == ".count" else args[1]
            found = []
            total = 0.0
            memo = {}
            res = self.solve(ag, (("lit", q), None), env, None, inst)
            while res is not None:
                e, c = res
                if name == ".findall":
                    found.append(freeze(evaluate(args[0], env) if args[0][0] != "v" else args[0], e, memo, self.fresh))
                elif name == ".sum":
                    x = grounded(args[0], e)
                    if x[0] == "b":
                        raise Inconclusive("sum of truth values")
                    total += num(x)
                else:
                    total += 1.0
                res = self.solve(ag, False, e, c, inst)
            if name == ".findall":
                return bind([(("t", tuple(found)), args[2])])
            if name == ".sum":
                return bind([(("n", total), args[2])])
            return bind([(("n", total), args[1])])
        if name == ".abolish":
            pat = freeze(args[0], env, {}, self.fresh)
            if pat[0] != "l":
                raise Fail("literal expected")
            a = self.ags[ag]
            gone = [b for b in group(a.bb, pat[1], len(pat[2])) if unify_annotated(pat, b, NOENV, self.ch) is not None]
            self.ags[ag] = a._replace(bb=a.bb - frozenset(gone))
            return ok
        if name == ".ground":
            return ok if all(is_ground(a, env) for a in args) else no
        if name in (".atom", ".literal", ".list", ".number", ".string", ".structure"):
            t = freeze(args[0], env, {}, self.fresh)
            k = t[0]
            yes = {".atom": k == "l" and not t[2] and not t[3], ".literal": k == "l", ".list": k in "tc",
                   ".number": k == "n", ".string": k == "s", ".structure": k in ("l", "t", "c")}[name]
            return ok if yes else no
        if name == ".length":
            t = freeze(args[0], env, {}, self.fresh)
            if t[0] == "t":
                n = len(t[1])
            elif t[0] == "s":
                n = len(t[1])
            elif t[0] == "l":
                n = len(t[2])
            else:
                raise Fail("length")
            return bind([(args[1], ("n", float(n)))])
        if name == ".nth":
            i = conv(freeze(args[0], env, {}, self.fresh), int)
            t = freeze(args[1], env, {}, self.fresh)
            if t[0] != "t":
                raise Inconclusive("nth")
            if not 0 <= i < len(t[1]):
                raise Fail("index")
            return bind([(args[2], t[1][i])])
        if name in (".min", ".max", ".sort"):
            t = freeze(args[0], env, {}, self.fresh)
            if t[0] != "t" or not all(x[0] == "n" for x in t[1]):
                raise Inconclusive(name)
            v = sorted(x[1] for x in t[1])
            if name == ".sort":
                return bind([(args[1], ("t", tuple(("n", x) for x in v)))])
            if not v:
                raise Fail("empty")
            return bind([(args[1], ("n", v[0] if name == ".min" else v[-1]))])
        if name == ".tail":
            t = freeze(args[0], env, {}, self.fresh)
            if t[0] != "t":
                raise Inconclusive("tail")
            return bind([(args[1], ("t", t[1][1:]))])
        if name == ".concat":
            parts = [grounded(a, env) for a in args[:-1]]
            if all(p[0] == "t" for p in parts):
                return bind([(args[-1], ("t", tuple(x for p in parts for x in p[1])))])
            if all(p[0] == "s" for p in parts):
                return bind([(args[-1], ("s", "".join(p[1] for p in parts)))])
            raise Inconclusive("concat")
        if name in (".floor", ".ceil", ".round"):
            x = conv(freeze(args[0], env, {}, self.fresh), float)
            x = math.floor(x) if name == ".floor" else math.ceil(x) if name == ".ceil" else round(x)
            return bind([(args[1], ("n", float(x)))])
        if name == ".randint":
            a, b = (conv(freeze(x, env, {}, self.fresh), int) for x in args[:2])
            if a != b:
                raise Inconclusive("random")
            return bind([(args[2], ("n", float(a)))])
        if name in (".date", ".time"):
            try:
                t = datetime.datetime.fromtimestamp(self.now, datetime.timezone.utc)
            except (ValueError, OverflowError, OSError):
                raise Fail("clock")
            t = (t.year, t.month, t.day) if name == ".date" else (t.hour, t.minute, t.second)
            return bind([(a, ("n", float(x))) for a, x in zip(args, t)])
        if name == ".fn":
            # add_function(".fn", (int, None)): id, value -> [id, value] (frozen)
            names = {}
            vals = [freeze(a, env, {}, self.fresh) for a in args[:2]]
            self.emit(".fn", ("n", float(conv(vals[0], int))), show(vals[1], {}, names))
            return bind([(args[2], ("t", (("n", float(conv(vals[0], int))), vals[1])))])
        if name == ".two":
            memo = {}
            t = ("t", tuple(freeze(a, env, memo, self.fresh) for a in args[:2]))
            self.emit(".two", show(t, {}, {}))
            return bind([(args[2], t)])
        if name == ".conv":
            # add_function(".conv", (Agent, float, asl_str, tuple))
            memo = {}
            vals = [freeze(a, env, memo, self.fresh) for a in args[:3]]
            f = conv(vals[0], float)
            s = asl_str(vals[1])
            if vals[2][0] != "t":
                raise Fail("tuple")
            self.emit(".conv", ag, f, s, tuple(show(x, {}, {}) for x in vals[2][1]))
            return bind([(args[3], ("l", "conv", (("n", f), ("s", s), ("n", float(len(vals[2][1])))), EMPTY))])
        if name == ".pred":
            # add_predicate(".pred", (Environment, int, int)): first < second
            vals = [conv(freeze(a, env, {}, self.fresh), int) for a in args]
            self.emit(".pred", True, *vals)
            return ok if vals[0] < vals[1] else no
        if name == ".lit":
            # add_function(".lit", (Literal, Environment, object, Agent))
            memo = {}
            vals = [freeze(a, env, memo, self.fresh) for a in args[:2]]
            if vals[0][0] != "l":
                raise Fail("spec")
            self.emit(".lit", ag, True, show(vals[0], {}, {}), show(vals[1], {}, {}))
            return bind([(args[2], ("s", vals[0][1]))])
        if name == ".proc":
            vals = [freeze(a, env, {}, self.fresh) for a in args]
            if vals[0][0] != "s":
                raise Fail("spec")
            self.emit(".proc", vals[0][1])
            return ok
        if name == ".gen":
            gid = num(grounded(args[0], env))
            n = int(num(grounded(args[1], env)))
            cps = (("gen", name, gid, args[2], n, 0, env, rest, ag), cps)
            return False, env, cps
        if name == ".wait":
            if inst is None:
                raise Inconclusive("wait in a context")
            ev = until = None
            for a in args:
                a = grounded(a, env)
                if a[0] == "n":
                    until = self.now + a[1] / 1000
                elif a[0] == "s":
                    ev = self.menv.parse_event(a[1])
                    if ev is None:
                        raise Fail("event")
                else:
                    raise Fail("wait")
            inst["wait"] = (ev, until, False)
            return ok
        if name in (".send", ".broadcast"):
            return ok if self.send(ag, name, args, env) else no
        if name == ".post":
            # .post(id, agent, kind, content): host code posts an event inside an action.
            ident, to, kind, content = args
            names = {}
            self.emit(".post", ag, show(ident, env, names))
            to = to[1]
            target = self.menv.resolve(self, to)
            trig, gt = {"tell": ("+", ""), "untell": ("-", ""), "achieve": ("+", "!"), "unachieve": ("-", "!"),
                        "test": ("+", "?")}[kind[1]]
            content = freeze(content, env, {}, self.fresh)
            self.call(target, trig, gt, content, NOENV, None, False)
            return ok
        if name in (".spawn", ".despawn"):
            return self.menv.spawn(self, ag, name, args, env, ok)
        raise Inconclusive("action " + name)

    # -- messages and events

    def send(self, ag, name, args, env):
        if name == ".send":
            to = grounded(args[0], env)
            to = to[1] if to[0] == "t" else (to,)
            names = []
            for t in to:
                if t[0] == "l" and not t[2] and not t[3]:
                    names.append(t[1])
                elif t[0] == "s":
                    names.append(t[1])
                else:
                    raise Fail("receiver")
            for n in names:
                if n not in self.ags:
                    raise Fail("unknown agent")
            ilf, content = args[1], args[2]
        else:
            names = [n for n in self.menv.roster(self) if n != ag]
            ilf, content = args[0], args[1]
        ilf = grounded(ilf, env)
        if ilf[0] != "l" or ilf[2] or ilf[3]:
            return False
        forces = {"tell": ("+", ""), "untell": ("-", ""), "achieve": ("+", "!")}
        if name == ".send":
            forces.update({"unachieve": ("-", "!"), "tellHow": ("+", "how"), "untellHow": ("-", "how"),
                           "askHow": ("+", "ask")})
        if ilf[1] not in forces:
            raise Fail("illocutionary force")
        trig, gt = forces[ilf[1]]
        if gt in ("how", "ask"):
            content = grounded(content, env)
        else:
            content = freeze(content, env, {}, self.fresh)
            if content[0] != "l":
                raise Fail("content")
            content = content[:3] + (annset(content[3] + (("l", "source", (("l", ag, EMPTY, EMPTY),), EMPTY),)),)
        for n in names:
            self.post(ag, n, trig, gt, content)
        return True

    def post(self, sender, to, trig, gt, content):
        if self.menv.transport and sender != to:
            if gt in ("how", "ask"):
                self.emit("net", sender, to, trig, gt)
            else:
                self.emit("net", sender, to, trig, gt, show(content, NOENV, {}))
            self.net.append(Msg(sender, to, trig, gt, content))
        else:
            self.deliver(Msg(sender, to, trig, gt, content))

    def deliver(self, msg):
        if msg.to not in self.ags:
            raise Fail("gone")
        if msg.gt == "how" and msg.trig == "+":
            plan = self.menv.parse_plan(msg.content)
            if plan is None:
                raise Fail("invalid plan")
            a = self.ags[msg.to]
            self.ags[msg.to] = a._replace(plans=a.plans + (plan,))
        elif msg.gt == "how":
            a = self.ags[msg.to]
            if msg.content[0] != "s":
                raise Fail("label")
            label = msg.content[1]
            self.ags[msg.to] = a._replace(plans=tuple(
                p for p in a.plans if p.label is None or "@" + p.label != label))
        elif msg.gt == "ask":
            name = self.menv.parse_name(msg.content)
            groups = {}
            for p in self.ags[msg.to].plans:
                groups.setdefault((p.trig, p.gt, p.head[1], len(p.head[2])), []).append(p)
            groups = [g for g in groups.values() if g[0].head[1] == name]
            wanted = []
            while groups:
                # The order among plans for different events is open.
                wanted += groups.pop(self.ch.choose(len(groups)) if self.menv.transport else 0)
            if msg.sender not in self.ags and wanted:
                raise Fail("gone")
            for p in wanted:
                # Plans travel as values: the text is checked by behaviour.
                self.post(msg.to, msg.sender, "+", "how", ("plan", p))
        else:
            self.call(msg.to, msg.trig, msg.gt, msg.content, NOENV, None, False)

    def call(self, ag, trig, gt, term, env, caller, delayed):
        """Raises an event. Returns the (possibly extended) environment of the poster."""
        if gt == "" and trig == "+":
            b = grounded(term, env)
            if b[0] != "l":
                raise Fail("literal expected")
            a = self.ags[ag]
            self.ags[ag] = a._replace(bb=a.bb | {b})
        elif gt == "":
            t = evaluate(term, env)
            if t[0] != "l":
                raise Fail("literal expected")
            a = self.ags[ag]
            options = []
            for b in group(a.bb, t[1], len(t[2])):
                e = unify_annotated(t, b, env, self.ch)
                if e is not None:
                    options.append((b, e))
            if not options:
                return env
            b, env = options[self.ch.choose(len(options))]
            self.ags[ag] = a._replace(bb=a.bb - {b})
        frozen = freeze(term, env, {}, self.fresh)
        if frozen[0] != "l":
            raise Fail("literal expected")

        # Wake waiting intentions.
        a = self.ags[ag]
        ints = []
        for it in a.ints:
            top = it.stack[-1]
            if top.wait and top.wait[0]:
                etrig, egt, ehead = top.wait[0]
                if etrig == trig and egt == gt:
                    m = {}
                    head = rename(ehead, m, self.fresh)
                    if unify_annotated(head, frozen, NOENV, self.ch) is not None:
                        it = it._replace(stack=it.stack[:-1] + (top._replace(wait=None),))
            ints.append(it)
        self.ags[ag] = a = a._replace(ints=tuple(ints))

        if gt == "!" and trig == "-":
            ints = []
            for it in a.ints:
                top = it.stack[-1]
                if top.gt == "!" and top.ev[1] == frozen[1] and \
                        unify(("t", frozen[2]), ("t", top.ev[2]), NOENV) is not None:
                    if len(it.stack) > 1:
                        ints.append(it._replace(stack=it.stack[:-1]))
                else:
                    ints.append(it)
            self.ags[ag] = a._replace(ints=tuple(ints))
            return env

        for plan in a.plans:
            if plan.trig != trig or plan.gt != gt or plan.head[1] != frozen[1] or \
                    len(plan.head[2]) != len(frozen[2]):
                continue
            e = unify_annotated(plan.head, frozen, NOENV, self.ch)
            if e is None:
                continue
            res = self.solve(ag, (plan.context, None), e, None, None)
            if res is None:
                continue
            inst = Inst(self.fresh(), res[0], conts(plan.body, None), None, gt, frozen, term)
            a = self.ags[ag]
            if not delayed and caller is not None:
                ints = []
                pushed = False
                for it in a.ints:
                    if it.stack[-1].id == caller:
                        it = it._replace(stack=it.stack + (inst,))
                        pushed = True
                    ints.append(it)
                if pushed:
                    self.ags[ag] = a._replace(ints=tuple(ints))
                    return env
            self.ags[ag] = a._replace(ints=a.ints + (Int(self.fresh(), (inst,)),))
            return env
        if gt == "!":
            raise Fail("no applicable plan")
        if gt == "?":
            t = evaluate(term, env)
            res = self.solve(ag, (("lit", t), None), env, None, None)
            if res is None:
                if caller is None:
                    return env
                raise Fail("test failed")
            return res[0]
        return env

    # -- intentions

    def select(self, ag):
        """The oldest intention that is not suspended (its wait ends), or None."""
        a = self.ags[ag]
        for i, it in enumerate(a.ints):
            top = it.stack[-1]
            if top.wait is None:
                return it.id
            _, until, ripe = top.wait
            if until is not None and (passed(until, self.now) or (
                    (ripe or near(until, self.now)) and self.ch.choose(2))):
                top = top._replace(wait=None)
                it = it._replace(stack=it.stack[:-1] + (top,))
                self.ags[ag] = a._replace(ints=a.ints[:i] + (it,) + a.ints[i + 1:])
                return it.id
        return None

    def set_top(self, ag, iid, top):
        a = self.ags[ag]
        self.ags[ag] = a._replace(ints=tuple(
            it._replace(stack=it.stack[:-1] + (top,)) if it.id == iid and it.stack[-1].id == top.id else it
            for it in a.ints))

    def update_inst(self, ag, inst_id, env, cont, wait):
        """Updates an instance wherever it is (a handler may be on top of it)."""
        a = self.ags[ag]
        ints = []
        for it in a.ints:
            if any(x.id == inst_id for x in it.stack):
                it = it._replace(stack=tuple(
                    x._replace(env=env, cont=cont, wait=wait) if x.id == inst_id else x for x in it.stack))
            ints.append(it)
        self.ags[ag] = a._replace(ints=tuple(ints))

    def micro(self, ag, iid):
        """Executes one formula of the intention."""
        a = self.ags[ag]
        it = next(i for i in a.ints if i.id == iid)
        top = it.stack[-1]
        if top.cont is None:
            return self.finish(ag, it)
        item, cont = top.cont
        env = top.env
        scratch = {"wait": None}
        try:
            k = item[0]
            if k == "q":
                res = self.solve(ag, (item[1], None), env, None, scratch)
                if res is None:
                    raise Fail("plan failure")
                env = res[0]
            elif k == "+":
                self.call(ag, "+", "", item[1], env, top.id, False)
            elif k == "-":
                env = self.call(ag, "-", "", item[1], env, top.id, False)
            elif k == "-+":
                m = {}
                pat = replace_pattern(item[1], m, self.fresh)
                self.call(ag, "-", "", pat, env, top.id, False)
                cont = (("+", item[1]), cont)
            elif k == "!":
                self.call(ag, "+", "!", item[1], env, top.id, False)
            elif k == "!!":
                self.call(ag, "+", "!", item[1], env, top.id, True)
            elif k == "?":
                env = self.call(ag, "+", "?", item[1], env, top.id, False)
            elif k == "if":
                res = self.solve(ag, (item[1], None), env, None, scratch)
                if res is not None:
                    env = res[0]
                    cont = conts(item[2], cont)
                elif item[3]:
                    cont = conts(item[3], cont)
            elif k == "while":
                res = self.solve(ag, (item[1], None), env, None, scratch)
                if res is not None:
                    cont = conts(item[2], (("restore", env), (item, cont)))
                    env = res[0]
            elif k == "restore":
                env = item[1]
            elif k == "for":
                res = self.solve(ag, (item[1], None), env, None, scratch)
                if res is not None:
                    cont = conts(item[2], (("next", env, res[1], item[2]), cont))
                    env = res[0]
            elif k == "next":
                res = self.solve(ag, False, item[1], item[2], scratch)
                if res is not None:
                    cont = conts(item[3], (("next", item[1], res[1], item[3]), cont))
                    env = res[0]
                else:
                    env = item[1]
            else:
                raise AssertionError(item)
        except Fail:
            # The failed intention ends, everything it did before stays.
            self.emit("err", ag)
            a = self.ags[ag]
            self.ags[ag] = a._replace(ints=tuple(
                i for i in a.ints if not any(x.id == top.id for x in i.stack)))
            return
        self.update_inst(ag, top.id, env, cont, scratch["wait"])

    def finish(self, ag, it):
        top = it.stack[-1]
        a = self.ags[ag]
        if len(it.stack) == 1:
            self.ags[ag] = a._replace(ints=tuple(i for i in a.ints if i.id != it.id))
            return
        caller = it.stack[-2]
        result = freeze(top.ev, top.env, {}, self.fresh)
        env = unify(top.call, result, caller.env)
        if env is None:
            raise Inconclusive("back unification")
        it = it._replace(stack=it.stack[:-2] + (caller._replace(env=env),))
        self.ags[ag] = a._replace(ints=tuple(it if i.id == it.id else i for i in a.ints))


_GROUPS = {}


def group(bb, functor, arity):
    """The beliefs of one signature. Any order is legal (every use goes through
    the chooser); sorting keeps the model itself deterministic."""
    g = _GROUPS.get(bb)
    if g is None:
        if len(_GROUPS) > 5000:
            _GROUPS.clear()
        g = {}
        for b in sorted(bb, key=repr):
            g.setdefault((b[1], len(b[2])), []).append(b)
        _GROUPS[bb] = g
    return g.get((functor, arity), ())


def conts(body, rest):
    for s in reversed(body or ()):
        rest = (s, rest)
    return rest


def replace_pattern(t, m, fresh):
    k = t[0]
    if k in ("op", "uop"):
        return ("_",)
    if k == "v":
        if t[1] not in m:
            m[t[1]] = ("v", fresh())
        return m[t[1]]
    if k == "l":
        return ("l", t[1], tuple(replace_pattern(a, m, fresh) for a in t[2]),
                tuple(replace_pattern(a, m, fresh) for a in t[3]))
    if k == "t":
        return ("t", tuple(replace_pattern(a, m, fresh) for a in t[1]))
    if k == "c":
        return ("c", replace_pattern(t[1], m, fresh), replace_pattern(t[2], m, fresh))
    return t


# ---------------------------------------------------------------- frontier

def successors(menv, state, ag, log, pos, now, budget):
    """All outcomes of one micro step of agent ag. Yields (state, pos)."""
    prefix = []
    while prefix is not None:
        budget.spend()
        ch = Chooser(prefix)
        tx = Tx(menv, state, log, pos, ch, now)
        try:
            iid = tx.select(ag)
            if iid is not None:
                tx.micro(ag, iid)
                yield tx.state(), tx.pos
        except Prune:
            pass
        prefix = ch.next_prefix()


def atomically(menv, state, log, now, budget, f):
    """All outcomes of an external operation f(tx) that consume the whole log."""
    prefix = []
    while prefix is not None:
        budget.spend()
        ch = Chooser(prefix)
        tx = Tx(menv, state, log, 0, ch, now)
        try:
            f(tx)
            if tx.pos == len(log):
                yield tx.state()
        except Prune:
            pass
        prefix = ch.next_prefix()


def quiescent(menv, state, ag, now):
    """Nothing runnable: every intention is suspended."""
    tx = Tx(menv, state, (), 0, Chooser([]), now)
    return tx.select(ag) is None
