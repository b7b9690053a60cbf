"""Function checks: random calls of catalogued functions, in several query positions, against reference functions.

A catalogue maps name -> Fn(args, ref, ret): `args` is a list of argument kinds (or a callable giving one), `ref` the
reference implementation on python values.  A reference may raise Skip for arguments whose result is not specified.
"""
import math
from . import eng, sqlmodel as M


class Skip(Exception):
    pass


class Null(Exception):
    """The specified result is NULL."""


class Fn:
    def __init__(self, name, args, ref, ret="i", nullable=False, sql=None, w=1):
        self.name, self.args, self.ref, self.ret, self.nullable, self.sqlf, self.w = name, args, ref, ret, nullable, sql, w

    def argkinds(self, rng):
        return self.args(rng) if callable(self.args) else list(self.args)


class Suite:
    """kinds: {kind: (column names, value generator, set of result kinds usable as this argument)}"""

    def __init__(self, fns, kinds, lit=None):
        self.fns = {}
        for f in fns:
            self.fns[f.name] = f
        self.kinds, self.lit = kinds, lit
        self.names = [f.name for f in fns for _ in range(f.w)]

    def call(self, rng, depth, const=False, name=None):
        f = self.fns[name or rng.choice(self.names)]
        return ("f", f.name, [self.arg(rng, k, depth, const) for k in f.argkinds(rng)])

    def arg(self, rng, kind, depth, const):
        if isinstance(kind, tuple):                      # a fixed AST node, or ("lit", value)
            return kind
        cols, gen, rets = self.kinds[kind]
        if depth > 0 and rets and rng.random() < 0.3:
            names = [n for n in self.names if self.fns[n].ret in rets]
            if names:
                return self.call(rng, depth - 1, const, rng.choice(names))
        if not cols or const or rng.random() < 0.3:
            return ("lit", None) if rng.random() < 0.06 else ("lit", gen(rng))
        return ("col", None, rng.choice(cols))

    def rows(self, rng, n, nulls=0.12):
        out = []
        for i in range(n):
            r = {"id": i + 1, "g": rng.randint(0, 2)}
            for cols, gen, _ in self.kinds.values():
                for c in cols:
                    if c not in r:
                        r[c] = None if rng.random() < nulls else gen(rng)
            out.append(r)
        return out

    def sql(self, e):
        if e[0] == "f":
            f = self.fns[e[1]]
            args = [self.sql(a) for a in e[2]]
            return f.sqlf(*args) if f.sqlf else "%s(%s)" % (f.name, ", ".join(args))
        if e[0] == "lit" and self.lit:
            s = self.lit(e[1])
            if s is not None:
                return s
        return M.sql(e)

    def value(self, e, row):
        """reference value; raises Skip when unspecified"""
        if e[0] == "lit":
            return e[1]
        if e[0] == "col":
            return row[e[2]]
        f = self.fns[e[1]]
        skip = None
        vals = []
        for a in e[2]:
            try:
                vals.append(self.value(a, row))
            except Skip as x:
                skip = x
        if skip:
            raise skip
        if not f.nullable and any(v is None for v in vals):
            return None
        try:
            v = f.ref(*vals)
        except Null:
            return None
        if isinstance(v, float) and (math.isnan(v) or math.isinf(v) or abs(v) > 1e15):
            raise Skip()
        return v

    def names_in(self, e):
        if e[0] == "f":
            yield e[1]
            for a in e[2]:
                yield from self.names_in(a)

    # ------------------------------------------------------------------ cases
    def make(self, rng, contexts=("select", "select", "select", "select", "where", "group", "order", "case", "agg", "insert", "const")):
        ctx = rng.choice(contexts)
        rows = self.rows(rng, rng.choice([1, 2, 4, 6, 9]))
        if ctx in ("select", "const", "insert"):
            # every function turns up regularly: draw names in random order
            ex = [self.call(rng, rng.choice([0, 0, 1, 2]), const=ctx == "const") for _ in range(rng.randint(2, 6))]
        else:
            ex = [self.call(rng, rng.choice([0, 1]))]
        return {"ctx": ctx, "rows": rows, "ex": ex, "pick": rng.randrange(1000), "alias": rng.random() < 0.3}

    def run(self, case, obs, cmp=None):
        cmp = cmp or same
        rows, ex, ctx = case["rows"], case["ex"], case["ctx"]
        obs.hit("ctx_" + ctx)
        for x in ex:
            for n in self.names_in(x):
                obs.hit("fn_" + n)
        vals = []
        for r in rows:
            line = []
            for x in ex:
                try:
                    line.append(self.value(x, r))
                except Skip:
                    line.append(Skip)
            vals.append(line)
        first = [v[0] for v in vals]
        if ctx not in ("select", "const", "insert") and any(v is Skip for v in first):
            ctx = "select"
        e = eng.engine({"t": rows}, config=case.get("config"))
        S = self.sql
        if ctx in ("select", "insert", "const"):
            frm = "FROM t" if ctx != "const" or case["alias"] else None
            if frm is None:
                sql = "SELECT " + ", ".join("%s AS c%d" % (S(x), k) for k, x in enumerate(ex))
                vals = vals[:1]
            else:
                sql = "SELECT id, " + ", ".join("%s AS c%d" % (S(x), k) for k, x in enumerate(ex)) + " " + frm
            got = eng.attempt(eng.query, e, sql)
            if isinstance(got, eng.Raised) or len(got) != len(vals):
                obs.fail("query", "query failed or lost rows", sql=sql, got=got if isinstance(got, eng.Raised) else len(got), rows=rows[:3])
                return
            for g, w, r in zip(got, vals, rows):
                for k, v in enumerate(w):
                    if v is Skip:
                        obs.hit("unspecified")
                        continue
                    obs.hit("values")
                    obs.hit("null_values" if v is None else "nonnull_values")
                    if "c%d" % k not in g or not cmp(g["c%d" % k], v):
                        obs.fail("value:" + ex[k][1], "%s = %r, expected %r" % (S(ex[k]), g.get("c%d" % k, "absent"), v), row=r, sql=sql)
            if len({repr(w) for w in vals}) > 1 or frm is None:
                obs.nontrivial(sql, vals)
                obs.sample({"sql": sql, "first": vals[0]})
            return
        x, s = ex[0], S(ex[0])
        if ctx == "where":
            known = [v for v in first if v is not None and not isinstance(v, (float, bytes))]
            if known and isinstance(known[case["pick"] % len(known)], (int, str)):
                pv = known[case["pick"] % len(known)]
                if case["alias"]:
                    sql, keep = "SELECT id FROM t WHERE %s = %s" % (s, M.sql(("lit", pv))), lambda v: v is not None and cmp(v, pv)
                else:
                    sql, keep = "SELECT id FROM t WHERE NOT (%s = %s)" % (s, M.sql(("lit", pv))), lambda v: v is not None and not cmp(v, pv)
            else:
                sql, keep = "SELECT id FROM t WHERE %s IS NULL" % s, lambda v: v is None
            want = [{"id": r["id"]} for r, v in zip(rows, first) if keep(v)]
            ordered = True
        elif ctx == "case":
            sql = "SELECT id, CASE WHEN %s IS NULL THEN 'none' ELSE 'some' END AS w, IFNULL(%s, -987) AS d FROM t" % (s, s)
            want = [{"id": r["id"], "w": "none" if v is None else "some", "d": -987 if v is None else v} for r, v in zip(rows, first)]
            ordered = True
        elif ctx == "group":
            sql = "SELECT %s AS k, count(*) AS n, min(id) AS m FROM t GROUP BY k" % s
            groups = {}
            for r, v in zip(rows, first):
                groups.setdefault(repr(int(v) if isinstance(v, bool) else v), []).append((r["id"], v))
            if len({type(v).__name__ in ("float",) for v in first}) and any(isinstance(v, float) for v in first):
                obs.hit("unspecified")
                return
            want = [{"k": g[0][1], "n": len(g), "m": min(i for i, _ in g)} for g in groups.values()]
            ordered = False
        elif ctx == "agg":
            sql = "SELECT g, count(%s) AS n, max(%s) AS m FROM t GROUP BY g" % (s, s)
            groups = {}
            for r, v in zip(rows, first):
                groups.setdefault(r["g"], []).append(v)
            want = []
            for g, vs in groups.items():
                nn = [v for v in vs if v is not None]
                try:
                    want.append({"g": g, "n": len(nn), "m": max(nn) if nn else None})
                except TypeError:
                    obs.hit("unspecified")
                    return
            ordered = False
        else:
            try:
                keyed = sorted(zip(rows, first), key=lambda p: (p[1] is not None, p[1] if p[1] is not None else 0, p[0]["id"]))
            except TypeError:
                obs.hit("unspecified")
                return
            if any(isinstance(v, float) for v in first):
                obs.hit("unspecified")
                return
            sql = "SELECT id, %s AS k FROM t ORDER BY k, id" % s
            want = [{"id": r["id"], "k": v} for r, v in keyed]
            ordered = True
        got = eng.attempt(eng.query, e, sql)
        obs.hit("values", len(want))
        ok = not isinstance(got, eng.Raised) and len(got) == len(want)
        if ok:
            if not ordered:
                got = sorted(got, key=lambda r: r.get("m") if ctx == "group" else r.get("g"))
                want = sorted(want, key=lambda r: r["m"] if ctx == "group" else r["g"])
            ok = all(set(g) == set(w) and all(cmp(g[k], w[k]) for k in w) for g, w in zip(got, want))
        if not ok:
            obs.fail(ctx + ":" + x[1], "%s context wrong" % ctx, sql=sql, got=got, want=want, rows=rows)
        if len({repr(v) for v in first}) > 1:
            obs.nontrivial(sql, want)


def same(g, w):
    if isinstance(w, float) and isinstance(g, (int, float)) and not isinstance(g, bool):
        return g == w or abs(g - w) <= 1e-9 * max(abs(g), abs(w), 1e-3)
    if isinstance(w, int) and isinstance(g, (int, float)):
        return g == w
    return eng.norm(g) == eng.norm(w)
