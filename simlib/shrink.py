"""Minimises a failing case: schedule and faults first, then the program."""
import copy

from . import seams


def chunks(xs):
    """Lists with parts of xs removed, large parts first."""
    n = len(xs)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            if size == n and n == 0:
                continue
            yield xs[:i] + xs[i + size:]
        if size == 1:
            break
        size = (size + 1) // 2


def smaller_body(body):
    body = list(body or ())
    for i, s in enumerate(body):
        yield body[:i] + body[i + 1:]
    for i, s in enumerate(body):
        if s[0] == "if":
            yield body[:i] + list(s[2]) + body[i + 1:]
            for b in smaller_body(s[2]):
                if b:
                    yield body[:i] + [("if", s[1], b, s[3])] + body[i + 1:]
            if s[3] is not None:
                yield body[:i] + [("if", s[1], s[2], None)] + body[i + 1:]
                for b in smaller_body(s[3]):
                    if b:
                        yield body[:i] + [("if", s[1], s[2], b)] + body[i + 1:]
            for q in smaller_query(s[1]):
                yield body[:i] + [("if", q, s[2], s[3])] + body[i + 1:]
        elif s[0] in ("for", "while"):
            for b in smaller_body(s[2]):
                if b:
                    yield body[:i] + [(s[0], s[1], b)] + body[i + 1:]
            if s[0] == "for":
                for q in smaller_query(s[1]):
                    yield body[:i] + [("for", q, s[2])] + body[i + 1:]
        elif s[0] == "q":
            for q in smaller_query(s[1]):
                yield body[:i] + [("q", q)] + body[i + 1:]


def smaller_query(q):
    if q[0] in ("and", "or"):
        yield q[1]
        yield q[2]
        for x in smaller_query(q[1]):
            yield (q[0], x, q[2])
        for x in smaller_query(q[2]):
            yield (q[0], q[1], x)
    elif q[0] == "not":
        for x in smaller_query(q[1]):
            yield ("not", x)


def smaller_program(case):
    """Cases with a smaller program."""
    agents = case["agents"]
    if case.get("transport"):
        yield dict(case, transport=False)
    for i in range(len(case["build"])):
        if len(case["build"]) > 1:
            yield dict(case, build=case["build"][:i] + case["build"][i + 1:])
        if case["build"][i][1] is not None:
            yield dict(case, build=case["build"][:i] + [[case["build"][i][0], None]] + case["build"][i + 1:])
    for i, a in enumerate(agents):
        def put(**kw):
            return dict(case, agents=agents[:i] + [dict(a, **kw)] + agents[i + 1:])
        if not any(a.get(k) for k in ("plans", "rules", "beliefs", "goals")):
            continue
        yield put(plans=[], rules=[], beliefs=[], goals=[])
        for key in ("plans", "rules", "beliefs", "goals"):
            xs = list(a.get(key, ()))
            for c in chunks(xs):
                yield put(**{key: c})
        plans = list(a.get("plans", ()))
        for j, p in enumerate(plans):
            def putp(**kw):
                return put(plans=plans[:j] + [dict(p, **kw)] + plans[j + 1:])
            for b in smaller_body(p.get("body")):
                yield putp(body=b)
            if p.get("context") is not None:
                yield putp(context=None)
                for q in smaller_query(p["context"]):
                    yield putp(context=q)
        rules = list(a.get("rules", ()))
        for j, (h, q) in enumerate(rules):
            for x in smaller_query(q):
                yield put(rules=rules[:j] + [(h, x)] + rules[j + 1:])


def smaller_ops(case):
    for c in chunks(list(case["ops"])):
        yield dict(case, ops=c)


def shrink(case, fails, stages, seconds):
    """Greedy minimisation. fails(case) -> violation of the same kind or None."""
    end = seams.real_perf() + seconds
    tries = 0
    best = case
    again = True
    while again:
        again = False
        for stage in stages:
            progress = True
            while progress:
                progress = False
                for cand in stage(best):
                    if seams.real_perf() > end:
                        return best, tries
                    tries += 1
                    if fails(cand):
                        best = cand
                        progress = again = True
                        break
    return copy.deepcopy(best), tries
