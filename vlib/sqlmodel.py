"""A small independent SQL evaluator used as the oracle, and the renderer of its ASTs to SQL text.

Expression nodes (tuples):
 ("col", alias|None, name) ("lit", v) ("bin", op, a, b) ("not", a) ("neg", a) ("isnull", a, negated) ("istrue", a, True|False, negated)
 ("in", a, [exprs], negated) ("between", a, lo, hi, negated) ("like", a, pattern, negated) ("par", a)
 ("case", operand|None, [(cond, val)], else|None) ("if", c, a, b) ("ifnull", a, b) ("coalesce", [..])
 ("func", name, [args])  ("agg", name, arg|None, distinct)  ("win", name, [args], [part], [(expr, desc)])
 ("scalar", query) ("insub", a, query, negated) ("exists", query, negated)
Query: dict(select, from_, joins, where, group, having, distinct, order, limit, offset, union)
"""
import functools, math, re
from .eng import norm

CMP = {"=", "!=", "<>", "<", "<=", ">", ">="}


# ------------------------------------------------------------------ rendering
def lit(v):
    if v is None:
        return "NULL"
    if v is True:
        return "TRUE"
    if v is False:
        return "FALSE"
    if isinstance(v, str):
        return "'" + v.replace("\\", "\\\\").replace("'", "''") + "'"
    if isinstance(v, float):
        return repr(v)
    return str(v)


def sql(e):
    t = e[0]
    if t == "col":
        return ("%s.%s" % (e[1], e[2])) if e[1] else e[2]
    if t == "lit":
        return lit(e[1])
    if t == "par":
        return "(" + sql(e[1]) + ")"
    if t == "bin":
        op = e[1].upper() if e[1] in ("and", "or") else e[1]
        return "%s %s %s" % (wrap(e[2], e), op, wrap(e[3], e, True))
    if t == "not":
        return "NOT " + ("(" + sql(e[1]) + ")" if e[1][0] not in ("par",) else sql(e[1]))
    if t == "jit":
        return "jit(%s)" % sql(e[1])
    if t == "neg":
        return "-" + ("(" + sql(e[1]) + ")" if e[1][0] not in ("col", "par") else sql(e[1]))
    if t == "isnull":
        return "%s IS %sNULL" % (wrap(e[1], e), "NOT " if e[2] else "")
    if t == "istrue":
        return "%s IS %s%s" % (wrap(e[1], e), "NOT " if e[3] else "", "TRUE" if e[2] else "FALSE")
    if t == "in":
        return "%s %sIN (%s)" % (wrap(e[1], e), "NOT " if e[3] else "", ", ".join(sql(x) for x in e[2]))
    if t == "between":
        return "%s %sBETWEEN %s AND %s" % (wrap(e[1], e), "NOT " if e[4] else "", wrap(e[2], e), wrap(e[3], e))
    if t == "like":
        return "%s %sLIKE %s" % (wrap(e[1], e), "NOT " if e[3] else "", lit(e[2]))
    if t == "case":
        s = "CASE" + (" " + sql(e[1]) if e[1] is not None else "")
        for c, v in e[2]:
            s += " WHEN %s THEN %s" % (sql(c), sql(v))
        if e[3] is not None:
            s += " ELSE " + sql(e[3])
        return s + " END"
    if t == "if":
        return "IF(%s, %s, %s)" % tuple(sql(x) for x in e[1:4])
    if t == "ifnull":
        return "IFNULL(%s, %s)" % (sql(e[1]), sql(e[2]))
    if t == "coalesce":
        return "COALESCE(%s)" % ", ".join(sql(x) for x in e[1])
    if t == "func":
        return "%s(%s)" % (e[1], ", ".join(sql(x) for x in e[2]))
    if t == "agg":
        if e[2] is None:
            return "count(*)"
        if isinstance(e[2], list):
            return "%s(%s)" % (e[1], ", ".join(sql(x) for x in e[2]))
        return "%s(%s%s)" % (e[1], "DISTINCT " if e[3] else "", sql(e[2]))
    if t == "win":
        opts = e[5] if len(e) > 5 else ""
        head = "%s(%s%s) OVER " % (e[1], "DISTINCT " if opts == "distinct" else "", ", ".join(sql(x) if x != "*" else "*" for x in e[2]))
        return head + (opts[6:] if opts.startswith("named:") else "(%s)" % winspec(e))
    if t == "scalar":
        return "(" + qsql(e[1]) + ")"
    if t == "insub":
        return "%s %sIN (%s)" % (wrap(e[1], e), "NOT " if e[3] else "", qsql(e[2]))
    if t == "exists":
        return "%sEXISTS (%s)" % ("NOT " if e[2] else "", qsql(e[1]))
    raise ValueError(t)


def winspec(e):
    over = []
    if e[3]:
        over.append("PARTITION BY " + ", ".join(sql(x) for x in e[3]))
    if e[4]:
        over.append("ORDER BY " + ", ".join(sql(x) + (" DESC" if d else "") for x, d in e[4]))
    return " ".join(over)


PREC = {"or": 1, "and": 2, "not": 3, "=": 4, "!=": 4, "<>": 4, "<": 4, "<=": 4, ">": 4, ">=": 4, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}


def prec(e):
    if e[0] == "bin":
        return PREC[e[1]]
    if e[0] == "not":
        return 3
    if e[0] in ("isnull", "istrue", "in", "between", "like", "insub"):
        return 4
    if e[0] == "neg" or (e[0] == "lit" and isinstance(e[1], (int, float)) and not isinstance(e[1], bool) and e[1] < 0):
        return 8
    return 9


def wrap(e, parent, right=False):
    p, q = prec(e), prec(parent)
    if p < q or (p == q and (right or q == 4)):
        return "(" + sql(e) + ")"
    return sql(e)


def source_sql(s, alias):
    if s[0] == "table":
        return s[1] + (" " + alias if alias and alias != s[1] else "")
    return "(" + qsql(s[1]) + ") " + alias


def qsql(q):
    s = ""
    if q.get("with"):
        s += "WITH " + ", ".join("%s AS (%s)" % (n, qsql(x)) for n, x in q["with"]) + " "
    if q.get("setop"):
        for n, (kind, x) in enumerate(q["setop"]):
            par = x.get("par") or x.get("setop") or x.get("limit") is not None or x.get("order")
            s += (" %s " % kind if n else "") + ("(%s)" if par else "%s") % qsql(x)
        return s + tail(q)
    s += "SELECT " + ("DISTINCT " if q.get("distinct") else "")
    if q["select"] == "*":
        s += "*"
    else:
        s += ", ".join(sql(e) + ("" if e[0] == "col" and e[2] == a and not q.get("force_as") else " AS " + a) for e, a in q["select"])
    if q.get("from_"):
        s += " FROM " + source_sql(*q["from_"])
    for kind, src, alias, on in q.get("joins") or []:
        if on is None:
            s += "%s %s" % (kind if kind == "," else " " + kind, source_sql(src, alias))
        else:
            s += " %s %s ON %s" % (kind, source_sql(src, alias), sql(on))
    if q.get("where") is not None:
        s += " WHERE " + sql(q["where"])
    if q.get("group"):
        s += " GROUP BY " + ", ".join(sql(e) for e in q["group"])
    if q.get("having") is not None:
        s += " HAVING " + sql(q["having"])
    if q.get("windows"):
        s += " WINDOW " + ", ".join("%s AS (%s)" % (n, winspec(w)) for n, w in q["windows"])
    if q.get("union"):
        for kind, b in q["union"]:
            s += " %s %s" % (kind, qsql(b))
    return s + tail(q)


def tail(q):
    s = ""
    if q.get("order"):
        s += " ORDER BY " + ", ".join(sql(e) + (" DESC" if d else "") for e, d in q["order"])
    if q.get("limit") is not None:
        s += " LIMIT %d" % q["limit"]
    if q.get("offset") is not None:
        s += " OFFSET %d" % q["offset"]
    return s


# ------------------------------------------------------------------ values
def num(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, float)):
        return v
    m = re.match(r"\s*[+-]?\d+(\.\d*)?([eE][+-]?\d+)?", v)
    if not m:
        return 0
    t = m.group(0)
    return float(t) if any(c in t for c in ".eE") else int(t)


def cmp_vals(a, b):
    """-1/0/1 or None when either is NULL; numbers against strings compare numerically."""
    if a is None or b is None:
        return None
    if isinstance(a, str) != isinstance(b, str):
        a, b = num(a), num(b)
    return (a > b) - (a < b)


def truth(v):
    if v is None:
        return None
    if isinstance(v, str):
        return num(v) != 0
    return bool(v)


def like(v, pattern):
    rx = "".join(".*" if c == "%" else "." if c == "_" else re.escape(c) for c in pattern)
    return re.fullmatch(rx, v, re.S | re.I) is not None


def dedup(rows):
    seen, out = set(), []
    for r in rows:
        k = tuple(norm(v) for v in r.values()) if isinstance(r, dict) else norm(r)
        if k not in seen:
            seen.add(k)
            out.append(r)
    return out


BITS = {"group_bit_or": lambda a, b: a | b, "group_bit_and": lambda a, b: a & b, "group_bit_xor": lambda a, b: a ^ b}


def jkey(v):
    return v if isinstance(v, str) else str(v)


def aggregate(name, vals, n):
    """vals: argument values of the group's rows (None for count(*)), n: number of rows."""
    if name == "count*":
        return n
    nn = [v for v in vals if v is not None]
    if name == "count":
        return len(nn)
    if name == "group_array":
        return nn
    if name == "group_uniq_array":
        return frozenset(nn)
    if name == "json_arrayagg":
        return nn if nn else None
    if name == "json_objectagg":
        return dict((jkey(k), v) for k, v in nn) if nn else None
    if not nn:
        return {"sum": 0, "avg": 0, "group_concat": ""}.get(name)       # dialect; the repository's tests pin SUM
    if name in ("sum", "avg"):
        nn = [num(v) if isinstance(v, str) else v for v in nn]
    if name == "sum":
        return sum(nn) if not any(isinstance(v, float) for v in nn) else math.fsum(nn)
    if name == "avg":
        return math.fsum(nn) / len(nn)
    if name == "min":
        return min(nn)
    if name == "max":
        return max(nn)
    if name == "group_concat":
        return ",".join(str(v) for v in nn)
    if name in BITS:
        return functools.reduce(BITS[name], [int(v) for v in nn])
    raise ValueError(name)


FUNCS = {
    "abs": lambda a: abs(num(a)),
    "upper": lambda a: a.upper(), "lower": lambda a: a.lower(), "length": lambda a: len(a.encode()),
    "char_length": len, "reverse": lambda a: a[::-1], "concat": lambda *a: "".join(str(x) for x in a),
    "mod": lambda a, b: None if b == 0 else math.fmod(a, b) if isinstance(a, float) or isinstance(b, float) else int(math.fmod(a, b)),
    "greatest": lambda *a: max(a), "least": lambda *a: min(a),
    "floor": lambda a: math.floor(a), "ceil": lambda a: math.ceil(a), "sign": lambda a: (a > 0) - (a < 0),
    "left": lambda s, n: s[:max(n, 0)], "right": lambda s, n: s[-n:] if n > 0 else "",
    "repeat": lambda s, n: s * max(n, 0),
    "replace": lambda s, a, b: s.replace(a, b) if a else s,
    "instr": lambda s, t: s.find(t) + 1,
}


class Model:
    def __init__(self, tables):
        self.tables = tables
        self.ctes = {}
        self.null_keys_join = False     # known defect of the external engine: NULL = NULL between join keys
        self._on = False
        self.insub_skips_null = False   # known defect: NULL items of an IN subquery are dropped
        self.null_in = self.empty_scalar = 0
        self.pinned_windows = ()         # window functions whose pinned (wrong) formula is to be used

    # -- expressions; env: {alias: row}, group: list of envs when grouped
    def ev(self, e, env, group=None, win=None, outer=None):
        t = e[0]
        ev = lambda x: self.ev(x, env, group, win, outer)
        if t == "lit":
            return e[1]
        if t == "par":
            return ev(e[1])
        if t == "col":
            if e[1] is not None:
                if e[1] in env:
                    return env[e[1]].get(e[2]) if env[e[1]] is not None else None
                if outer is not None and e[1] in outer:
                    return outer[e[1]].get(e[2]) if outer[e[1]] is not None else None
                raise KeyError(e)
            for r in env.values():
                if r is not None and e[2] in r:
                    return r[e[2]]
            return None
        if t == "bin":
            op = e[1]
            if op in ("and", "or"):
                a, b = truth(ev(e[2])), truth(ev(e[3]))
                if op == "and":
                    if a is False or b is False:
                        return 0
                    return None if a is None or b is None else 1
                if a or b:
                    return 1
                return None if a is None or b is None else 0
            a, b = ev(e[2]), ev(e[3])
            if op in CMP:
                if self._on and op == "=" and a is None and b is None and contains(e[2], "col") and contains(e[3], "col"):
                    return 1
                c = cmp_vals(a, b)
                if c is None:
                    return None
                return int({"=": c == 0, "!=": c != 0, "<>": c != 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op])
            if a is None or b is None:
                return None
            a, b = num(a), num(b)
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                return None if b == 0 else a / b
            if op == "%":
                return FUNCS["mod"](a, b)
        if t == "not":
            v = truth(ev(e[1]))
            return None if v is None else int(not v)
        if t == "jit":
            return ev(e[1])
        if t == "neg":
            v = ev(e[1])
            return None if v is None else -num(v)
        if t == "isnull":
            return int((ev(e[1]) is None) != e[2])
        if t == "istrue":
            return int((truth(ev(e[1])) is e[2]) != e[3])
        if t == "in":
            return self._in(ev(e[1]), [ev(x) for x in e[2]], e[3])
        if t == "between":
            v, lo, hi = ev(e[1]), ev(e[2]), ev(e[3])
            c1, c2 = cmp_vals(v, lo), cmp_vals(v, hi)
            x = None if c1 is None else c1 >= 0
            y = None if c2 is None else c2 <= 0
            r = False if x is False or y is False else (None if x is None or y is None else True)
            return None if r is None else int(r != e[4])
        if t == "like":
            v = ev(e[1])
            return None if v is None else int(like(str(v), e[2]) != e[3])
        if t == "case":
            if e[1] is not None:
                x = ev(e[1])
                for c, v in e[2]:
                    if cmp_vals(x, ev(c)) == 0:
                        return ev(v)
            else:
                for c, v in e[2]:
                    if truth(ev(c)):
                        return ev(v)
            return ev(e[3]) if e[3] is not None else None
        if t == "if":
            return ev(e[2]) if truth(ev(e[1])) else ev(e[3])
        if t == "ifnull":
            v = ev(e[1])
            return ev(e[2]) if v is None else v
        if t == "coalesce":
            for x in e[1]:
                v = ev(x)
                if v is not None:
                    return v
            return None
        if t == "func":
            args = [ev(x) for x in e[2]]
            if any(a is None for a in args):
                return None
            return FUNCS[e[1]](*args)
        if t == "agg":
            if e[2] is None:
                return aggregate("count*", None, len(group))
            if isinstance(e[2], list):
                return aggregate(e[1], [[self.ev(x, g, None, None, outer) for x in e[2]] for g in group], len(group))
            vals = [self.ev(e[2], g, None, None, outer) for g in group]
            if e[3]:
                vals = dedup([v for v in vals if v is not None])
            return aggregate(e[1], vals, len(group))
        if t == "win":
            return win[id(e)]
        if t == "scalar":
            rows = self.query(e[1], self._outer(env, outer))
            self.empty_scalar += not rows
            return next(iter(rows[0].values())) if rows else None
        if t == "insub":
            rows = self.query(e[2], self._outer(env, outer))
            items = [next(iter(r.values())) for r in rows]
            self.null_in += None in items
            if self.insub_skips_null:
                items = [x for x in items if x is not None]
            return self._in(ev(e[1]), items, e[3])
        if t == "exists":
            return int(bool(self.query(e[1], self._outer(env, outer))) != e[2])
        raise ValueError(t)

    @staticmethod
    def _outer(env, outer):
        return dict(outer or {}, **env)

    @staticmethod
    def _in(v, items, neg):
        if v is None:
            return None if items else int(neg)
        cs = [cmp_vals(v, x) for x in items]
        r = True if 0 in cs else (None if None in cs else False)
        return None if r is None else int(r != neg)

    # -- windows
    def windows(self, exprs, envs, outer):
        nodes = []

        def find(e):
            if isinstance(e, tuple):
                if e and e[0] == "win":
                    nodes.append(e)
                    return
                for x in e:
                    find(x)
            elif isinstance(e, list):
                for x in e:
                    find(x)
        for e in exprs:
            find(e)
        out = [dict() for _ in envs]
        for w in nodes:
            parts = {}
            for i, env in enumerate(envs):
                parts.setdefault(tuple(norm(self.ev(p, env, outer=outer)) for p in w[3]), []).append(i)
            for idx in parts.values():
                keys = {i: [(self.ev(x, envs[i], outer=outer), d) for x, d in w[4]] for i in idx}
                order = list(idx)
                for k in range(len(w[4]) - 1, -1, -1):
                    order.sort(key=lambda i: nullkey(keys[i][k][0]), reverse=w[4][k][1])
                peer = {i: tuple(norm(v) for v, _ in keys[i]) for i in idx}
                self.window(w, order, peer, envs, out, outer)
        return out

    def window(self, w, order, peer, envs, out, outer):
        name, n = w[1], len(order)
        arg = lambda k, i: self.ev(w[2][k], envs[i], outer=outer)
        for pos, i in enumerate(order):
            first = next(p for p in range(n) if peer[order[p]] == peer[i])
            last = max(p for p in range(n) if peer[order[p]] == peer[i])
            # running aggregates take the rows one after another (ROWS), value functions see the whole partition
            frame = order[: pos + 1] if w[4] and name not in ("first_value", "last_value", "nth_value") else order
            if name in self.pinned_windows:
                v = pinned_window(name, w, pos, n, sum(peer[order[p]] != peer[order[0]] for p in range(pos + 1)))
            elif name == "row_number":
                v = pos + 1
            elif name == "rank":
                v = first + 1
            elif name == "dense_rank":
                v = len({peer[order[p]] for p in range(pos + 1)})
            elif name == "percent_rank":
                v = first / (n - 1) if n > 1 else 0
            elif name == "cume_dist":
                v = (last + 1) / n
            elif name == "ntile":
                k = w[2][0][1]
                q, r = divmod(n, k)
                v = pos // (q + 1) + 1 if pos < r * (q + 1) else r + (pos - r * (q + 1)) // max(q, 1) + 1
            elif name in ("lag", "lead"):
                off = w[2][1][1] if len(w[2]) > 1 else 1
                p = pos - off if name == "lag" else pos + off
                v = arg(0, order[p]) if 0 <= p < n else (arg(2, i) if len(w[2]) > 2 else None)
            elif name == "first_value":
                v = arg(0, frame[0])
            elif name == "last_value":
                v = arg(0, frame[-1])
            elif name == "nth_value":
                k = w[2][1][1]
                v = arg(0, frame[k - 1]) if k <= len(frame) else None
            elif name == "count" and w[2] == ["*"]:
                v = len(frame)
            elif w[5:] == ("distinct",):
                v = aggregate(name, dedup([x for x in (arg(0, j) for j in frame) if x is not None]), len(frame))
            else:
                v = aggregate(name, [arg(0, j) for j in frame], len(frame))
            out[i][id(w)] = v

    # -- queries
    def source(self, s, outer):
        if s[0] == "table":
            if s[1] in self.ctes:
                return self.ctes[s[1]]
            return self.tables.get(s[1], [])
        return self.query(s[1], outer)

    def query(self, q, outer=None):
        saved = dict(self.ctes)
        try:
            for n, x in q.get("with") or []:
                self.ctes[n] = self.query(x, outer)
            rows = self._select(q, outer)
            return rows
        finally:
            self.ctes = saved

    def joined(self, q, outer):
        if not q.get("from_"):
            return [{}]
        src, alias = q["from_"]
        alias = alias or src[1]
        envs = [{alias: r} for r in self.source(src, outer)]
        seen = [alias]
        for kind, s, al, on in q.get("joins") or []:
            rows = self.source(s, outer)
            res, used = [], set()
            for env in envs:
                matched = False
                for j, r in enumerate(rows):
                    e2 = dict(env)
                    e2[al] = r
                    self._on = self.null_keys_join and kind.upper().startswith(("LEFT", "JOIN", "RIGHT"))
                    ok = on is None or truth(self.ev(on, e2, outer=outer))
                    self._on = False
                    if ok:
                        res.append(e2)
                        matched = True
                        used.add(j)
                if not matched and kind.upper().startswith(("LEFT", "JOIN")):
                    e2 = dict(env)
                    e2[al] = None
                    res.append(e2)
            if kind.upper().startswith("RIGHT"):
                for j, r in enumerate(rows):
                    if j not in used:
                        e2 = {a: None for a in seen}
                        e2[al] = r
                        res.append(e2)
            envs = res
            seen.append(al)
        return envs

    def _setop(self, q, outer):
        rows, names = [], None
        for n, (kind, x) in enumerate(q["setop"]):
            br = self.query(x, outer)
            if names is None:
                first = x
                while first.get("setop"):
                    first = first["setop"][0][1]
                names = list(br[0].keys()) if first["select"] == "*" else [a for _, a in first["select"]]
            rows = rows + [dict(zip(names, r.values())) for r in br]
            if n and kind.upper() == "UNION":
                rows = dedup(rows)
        for e, d in reversed(q.get("order") or []):
            rows.sort(key=lambda r: nullkey(self.ev(e, {"": r}, None, None, outer)), reverse=d)
        off = q.get("offset") or 0
        return rows[off:] if q.get("limit") is None else rows[off: off + q["limit"]]

    def _select(self, q, outer):
        if q.get("setop"):
            return self._setop(q, outer)
        envs = self.joined(q, outer)
        if q.get("where") is not None:
            envs = [e for e in envs if truth(self.ev(q["where"], e, outer=outer))]
        sel = q["select"]
        exprs = [] if sel == "*" else [e for e, _ in sel]
        hasagg = any(contains(e, "agg") for e in exprs)
        out = []          # (row, env, group)
        if q.get("group") or hasagg:
            groups, keyorder = {}, []
            for env in envs:
                k = tuple(norm(self.ev(g, env, outer=outer)) for g in q.get("group") or [])
                if k not in groups:
                    groups[k] = []
                    keyorder.append(k)
                groups[k].append(env)
            for k in keyorder:
                g = groups[k]
                out.append(({a: self.ev(e, g[0], g, None, outer) for e, a in sel}, g[0], g))
        else:
            wins = self.windows(exprs, envs, outer) if any(contains(e, "win") for e in exprs) else [None] * len(envs)
            for env, w in zip(envs, wins):
                if sel == "*":
                    row = {}
                    for r in env.values():
                        row.update(r or {})
                else:
                    row = {a: self.ev(e, env, None, w, outer) for e, a in sel}
                out.append((row, env, None))
        if q.get("having") is not None:
            out = [(r, e, g) for r, e, g in out if truth(self.ev(q["having"], {"": r}, g, None, outer))]
        if q.get("distinct"):
            seen, res = set(), []
            for r, e, g in out:
                k = tuple(norm(v) for v in r.values())
                if k not in seen:
                    seen.add(k)
                    res.append((r, e, g))
            out = res
        if q.get("union"):
            names = list(out[0][0].keys()) if out else ([a for _, a in sel] if sel != "*" else None)
            rows = [r for r, _, _ in out]
            for kind, b in q["union"]:
                br = self.query(b, outer)
                if names is None and br:
                    names = list(br[0].keys())
                rows = rows + [dict(zip(names, r.values())) for r in br]
                if kind.upper() == "UNION":
                    rows = dedup(rows)
            out = [(r, {"": r}, None) for r in rows]
        if q.get("order"):
            for e, d in reversed(q["order"]):
                def key(t, e=e):
                    r, env, g = t
                    if e[0] == "col" and e[1] is None and e[2] in r:
                        return nullkey(r[e[2]])
                    return nullkey(self.ev(e, env, g, None, outer))
                out.sort(key=key, reverse=d)
        rows = [r for r, _, _ in out]
        off = q.get("offset") or 0
        if q.get("limit") is not None:
            return rows[off: off + q["limit"]]
        return rows[off:]


def pinned_window(name, w, pos, n, differing):
    """What the repository's own tests pin for these functions (see KNOWN_FINDINGS.txt, C11)."""
    if name in ("rank", "dense_rank"):
        return differing + 1
    if name == "percent_rank":
        return 0 if pos == 0 else (differing + 1) - 1 / (pos + 1) - 1
    if name == "cume_dist":
        return pos + 1 / n + 1
    return int(pos / (n / w[2][0][1])) + 1


def nullkey(v):
    return (0, 0) if v is None else (1, v)


def contains(e, kind):
    if isinstance(e, tuple):
        if e and e[0] == kind:
            return True
        return any(contains(x, kind) for x in e)
    if isinstance(e, list):
        return any(contains(x, kind) for x in e)
    return False
