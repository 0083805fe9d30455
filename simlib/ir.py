"""Program IR (JSON lists / tuples) and its rendering as AgentSpeak text.

term   ("n",x) ("s",str) ("b",bool) ("v",name) ("_",) ("l",functor,args,annots)
       ("t",items) ("c",head,tail) ("op",o,l,r) ("uop","-",x)
query  ("true",) ("false",) ("and",a,b) ("or",a,b) ("not",a) ("=",l,r)
       ("cmp",o,l,r) ("lit",term) ("act",name,args)
stmt   ("q",query) ("+",lit) ("-",lit) ("-+",lit) ("!",lit) ("!!",lit) ("?",lit)
       ("if",q,body,else) ("while",q,body) ("for",q,body)
plan   {"label","trig","gt","head","context","body"}
agent  {"name","beliefs","rules","goals","plans"}
"""
import random


def lit(f, *args, annots=()):
    return ("l", f, tuple(args), tuple(annots))


def n(x):
    return ("n", float(x))


def v(name):
    return ("v", name)


class Style:
    """How programs are written: plainly (with all parentheses), or in one of
    the many other ways to write the same program."""

    def __init__(self, seed=None):
        self.rng = random.Random(seed) if seed is not None else None
        self.wild = self.rng is not None and self.rng.random() < 0.5

    def chance(self, x):
        return self.rng is not None and self.rng.random() < x

    def gap(self, may_vanish=False):
        """Between two tokens."""
        if not self.chance(0.3):
            return " "
        if may_vanish and self.chance(0.5):
            return ""
        if not self.wild:
            return self.rng.choice(["  ", "\n      ", "\t"])
        return self.rng.choice(["  ", "\n      ", "\t", " /* x; y. */ ", " // +!g0 <- .p(1).\n ", " # \"\n", " /**/", " /* \n * . */ "])

    def tight(self):
        return "" if not self.chance(0.1) else self.gap()


ST = Style()


def styled(f, x, seed):
    """Renders x in the style given by the seed."""
    global ST
    saved = ST
    ST = Style(seed)
    try:
        return f(x)
    finally:
        ST = saved


def num_text(x):
    if x < 0:
        return "-" + num_text(-x)
    if float(x).is_integer():
        t = str(int(x))
        if ST.chance(0.08):
            t = ST.rng.choice([t + ".0", t + "e0", "0" + t, t + ".00E+00"])
        return t
    t = repr(x)
    if ST.chance(0.1) and t.startswith("0."):
        t = t[1:]
    return t


def str_text(s):
    out = []
    for ch in s:
        if ch in '"\\':
            out.append("\\" + ch)
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\t" and not ST.chance(0.3):
            out.append("\\t")
        elif ord(ch) < 127 and ST.chance(0.02):
            out.append("\\x%02x" % ord(ch))
        else:
            out.append(ch)
    return '"%s"' % "".join(out)


def join(sep, parts):
    out = []
    for i, x in enumerate(parts):
        if i:
            out.append(ST.tight() + sep + ST.gap(True))
        out.append(x)
    return "".join(out)


OR, AND, NOT, CMP, ADD, MUL, NEG, POW, ATOM = range(1, 10)
PREC = {"&": AND, "|": OR, "<": CMP, "<=": CMP, ">": CMP, ">=": CMP, "==": CMP, "\\==": CMP, "+": ADD, "-": ADD, "*": MUL, "/": MUL, "div": MUL, "mod": MUL, "**": POW}


def paren(text, prec, least):
    """Parentheses where they are needed, and everywhere in plain style."""
    if prec == ATOM or least == OR and ST.rng is None or prec >= least and ST.rng is not None and not ST.chance(0.15):
        return text
    return "(%s%s%s)" % (ST.tight(), text, ST.tight())


def oper(l, op, r):
    a = b = " "
    if ST.rng is not None:
        vanish = op in "+*&/" or op in ("**", "|", "=")
        a, b = ST.gap(vanish), ST.gap(vanish)
    return l + a + op + b + r


def term(t, least=OR):
    k = t[0]
    if k == "n":
        x = num_text(t[1])
        return x if t[1] >= 0 or least <= NEG else "(%s)" % x
    if k == "s":
        return str_text(t[1])
    if k == "b":
        return "true" if t[1] else "false"
    if k == "v":
        return t[1]
    if k == "_":
        return "_"
    if k == "l":
        return t[1] + ("%s(%s)" % (ST.tight(), join(",", [term(x) for x in t[2]])) if t[2] else "") + \
            ("%s[%s]" % (ST.tight(), join(",", [term(x) for x in t[3]])) if t[3] else "")
    if k == "t":
        return "[%s]" % join(",", [term(x, AND) for x in t[1]])
    if k == "c":
        if t[2][0] == "c" and ST.chance(0.5):
            return "[%s|%s" % (term(t[1], AND), term(t[2])[1:])
        return "[%s%s|%s%s]" % (term(t[1], AND), ST.tight(), ST.tight(), term(t[2]))
    if k == "op":
        p = PREC[t[1]]
        text = oper(term(t[2], ATOM if p == POW else ADD if p == CMP else p), t[1], term(t[3], NEG if p == POW else p + 1))
        return paren(text, p, least) if ST.rng is not None else "(%s)" % text
    if k == "uop" and t[1] == "not":
        text = "not%s%s" % (ST.gap(), term(t[2], NOT))
        return paren(text, NOT, least)
    if k == "uop":
        text = "-" + ST.tight() + term(t[2], NEG)
        return paren(text, NEG, least) if ST.rng is not None else "(%s)" % text
    raise ValueError(t)


def query(q, top=True, least=OR):
    k = q[0]
    if top is False:
        least = max(least, ATOM if ST.rng is None else OR)
    if k in ("true", "false"):
        return k
    if k in ("and", "or"):
        p = AND if k == "and" else OR
        if k == "and" and ST.chance(0.5) and q[1][0] == q[2][0] == "cmp" and q[1][3] == q[2][2] and q[2][2][0] in "nv":
            # a < b < c
            text = oper(oper(term(q[1][2], ADD), q[1][1], term(q[1][3], ADD)), q[2][1], term(q[2][3], ADD))
        else:
            text = oper(query(q[1], False, p), "&" if k == "and" else "|",
                        query(q[2], False, p if ST.chance(0.5) else p + 1))
        return paren(text, p, least)
    if k == "not":
        return paren("not%s%s" % (ST.gap(), query(q[1], False, NOT)), NOT, least)
    if k in ("=", "cmp"):
        l, o, r = (q[1], "=", q[2]) if k == "=" else (q[2], q[1], q[3])
        return paren(oper(term(l, ADD), o, term(r, ADD)), CMP, least)
    if k in ("lit", "var"):
        return term(q[1], ATOM)
    if k == "act":
        return q[1] + ("%s(%s)" % (ST.tight(), join(",", [term(x) for x in q[2]])) if q[2] else "")
    raise ValueError(q)


def body(stmts, ind, sep=";"):
    out = []
    pad = "    " * ind
    for i, s in enumerate(stmts):
        k = s[0]
        last = i == len(stmts) - 1
        if k == "q":
            t = query(s[1])
            if t[0] in "+-!?":
                t = "(%s)" % t
            t = pad + t
        elif k in ("+", "-", "-+", "!", "!!", "?"):
            t = pad + k + ST.tight() + term(s[1])
        elif k == "if":
            t = pad + "if%s(%s)%s{\n%s\n%s}" % (ST.gap(True), query(s[1]), ST.gap(True), body(s[2], ind + 1), pad)
            if s[3] is not None:
                t += "%selse%s{\n%s\n%s}" % (ST.gap(True), ST.gap(True), body(s[3], ind + 1), pad)
        elif k in ("while", "for"):
            t = pad + "%s%s(%s)%s{\n%s\n%s}" % (k, ST.gap(True), query(s[1]), ST.gap(True), body(s[2], ind + 1), pad)
        else:
            raise ValueError(s)
        if last:
            # The last one in a block may have a separator.
            out.append(t + (sep if ind > 1 and ST.chance(0.1) else ""))
        else:
            out.append(t + ("" if k in ("if", "while", "for") and ST.chance(0.4) else ST.tight() + sep))
    return "\n".join(out)


def plan(p):
    out = []
    if p.get("label"):
        out.append("@%s%s" % (p["label"], ST.gap()))
    out.append("%s%s%s%s" % (p["trig"], ST.tight(), p["gt"], term(p["head"])))
    if p.get("context") is not None:
        out.append(ST.gap() + ":" + ST.gap() + query(p["context"]))
    if p.get("body"):
        out.append(ST.gap() + "<-\n" + body(p["body"], 1))
    return "".join(out) + ST.tight() + "."


def agent(a):
    if a.get("style") is not None and ST.rng is None:
        return styled(agent, a, a["style"])
    out = []
    for b in a.get("beliefs", ()):
        out.append(term(b) + ".")
    for head, q in a.get("rules", ()):
        out.append("%s%s:-%s%s." % (term(head), ST.gap(), ST.gap(), query(q)))
    for g in a.get("goals", ()):
        out.append("!%s." % term(g))
    for p in a.get("plans", ()):
        out.append(plan(p))
    return "\n".join(out) + "\n"
