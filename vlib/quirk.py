"""Model of one known defect: simple comparisons pushed down to the memory/file loaders are evaluated by the
external engine's type-coercing comparator, which does not use three-valued logic (NULL < 5 is true there, ...)."""
from . import sqlmodel as M


def conjuncts(e):
    if e[0] == "par":
        return conjuncts(e[1])
    if e[0] == "bin" and e[1] == "and":
        return conjuncts(e[2]) + conjuncts(e[3])
    return [e]


def colfree(e):
    return not M.contains(e, "col")


FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "=": "=", "!=": "!=", "<>": "!="}


def strip(e):
    while e[0] == "par":
        e = e[1]
    return e


def pushable(e):
    """(column, op, other side) when the conjunct may be handed to the loader, else None."""
    e = strip(e)
    if e[0] == "bin" and e[1] in M.CMP:
        a, b = strip(e[2]), strip(e[3])
        if a[0] == "col" and colfree(b):
            return a, e[1], b
        if b[0] == "col" and colfree(a):
            return b, FLIP[e[1]], a
    if e[0] == "in" and not e[3]:
        a = strip(e[1])
        if a[0] == "col" and all(colfree(x) for x in e[2]):
            return a, "in", e[2]
    return None


def coerce(a, b):
    for t in (int, float):
        if isinstance(a, t):
            try:
                return a, t(b)
            except ValueError:
                return a, t(0)
    try:
        return a, type(a)(b)
    except Exception:
        return a, None


def cmper(op, a, b):
    if op == "in":
        return a in b
    if op in ("=", "!=", "<>"):
        if a == b:
            r = True
        elif a is None or b is None:
            r = False
        else:
            a, b = coerce(a, b)
            r = b is not None and a == b
        return r if op == "=" else not r
    try:
        return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op] if a is not None and b is not None and isinstance(a, str) == isinstance(b, str) else _odd(op, a, b)
    except TypeError:
        return _odd(op, a, b)


def _odd(op, a, b):
    if op == ">":
        if a is None:
            return False
        if b is None:
            return True
    elif op == ">=":
        if a is None:
            return b is None
        if b is None:
            return True
    elif op == "<":
        if a is None:
            return b is not None
        if b is None:
            return False
    elif a is None or b is None:
        return True
    a, b = coerce(a, b)
    if b is None:
        return op in (">", ">=")
    return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]


def verdicts(model, pred, env):
    """(ideal, [possible with the quirk]) of a WHERE predicate on one row."""
    ideal = True
    must, may = True, True
    for c in conjuncts(pred):
        i = M.truth(model.ev(c, env)) is True
        ideal = ideal and i
        p = pushable(c)
        q = i
        if p:
            a = model.ev(p[0], env)
            b = [model.ev(x, env) for x in p[2]] if p[1] == "in" else model.ev(p[2], env)
            q = cmper(p[1], a, b)
        must = must and i and q
        may = may and (i or q)
    return ideal, must, may
