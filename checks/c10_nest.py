"""C10: nested queries against the model and against a two-step evaluation through a stored table."""
import copy
from vlib import eng, gen, sqlmodel as M

META = {"id": "C10", "sizes": {"quick": 7000, "thorough": 90000},
        "rule": "sessions of 1-3 statements, each a query whose FROM/JOIN sources are base tables, derived tables (depth <= 3), or CTEs (1-3, referring to earlier ones, or inside a derived table), with filters, groups, having, distinct, union, order/limit and expressions at every level, plus scalar, IN, NOT IN and EXISTS subqueries (uncorrelated, correlated by equality, by comparison) in SELECT, WHERE and HAVING; aliases and CTE names are reused across levels and statements; non-trivial = the outcome has rows and contains a nested query; distinct by (SQL, result)",
        "required": {"queries": 3000, "derived": 1000, "cte": 600, "cte_chain": 100, "joined_nested": 300, "depth3": 100, "scalar": 500, "in": 300, "exists": 300, "correlated": 500, "corr_cmp": 50, "corr_having": 50, "having_sub": 50, "two_step": 500, "reused_names": 200, "empty_scalar": 50, "null_in": 20},
        "probes": True}
C = lambda n, a=None: ("col", a, n)
AL = ["a", "b", "x", "y"]
NAMES = ["p", "q", "r", "u", "v1", "w"]


def tab(rng, n, nulls):
    ids = list(range(1, n + 1))
    if rng.random() < 0.3:
        rng.shuffle(ids)
    rows = []
    for i in range(n):
        r = {"id": ids[i], "k": rng.randint(0, 4), "n": rng.randint(-3, 12), "s": rng.choice(["a", "b", "c", "A", "", "xy"]), "t": rng.choice(["x", "y"])}
        for c in "ns":
            if rng.random() < nulls:
                r[c] = None
        rows.append(r)
    return rows


BASE = [("id", "I"), ("k", "I"), ("n", "i"), ("s", "s"), ("t", "S")]       # capitals: never NULL


class G:
    def __init__(self, rng, tables):
        self.rng, self.tables, self.depth = rng, tables, 0
        self.kinds = set()
        self.inner = 0

    def rnd(self, p):
        return self.rng.random() < p

    # a source: (src, cols, unique key column or None)
    def source(self, d, ctes, derived=0.5):
        r = self.rng
        if ctes and self.rnd(0.5):
            n, cols = r.choice(ctes)
            self.kinds.add("cte")
            return ("table", n), cols, "id" if any(c == "id" for c, _ in cols) else None
        if d and self.rnd(derived):
            self.kinds.add("derived")
            self.depth += 1
            q, cols = self.query(d - 1, ctes)
            if self.depth >= 3:
                self.kinds.add("depth3")
            self.depth -= 1
            return ("sub", q), cols, None
        return ("table", r.choice(["t1", "t2", "t3"])), list(BASE), "id"

    def keyed(self, d, ctes):
        """A source with a unique, non-NULL int column named in the third place."""
        r = self.rng
        k = r.random()
        t = ("table", r.choice(["t1", "t2", "t3"]))
        if k < 0.4 or not d:
            return t, list(BASE), "id"
        self.kinds.add("derived")
        if k < 0.7:
            q = {"select": [(C("k"), "k"), (("agg", r.choice(["sum", "count", "max"]), C("id"), False), "m")], "from_": (t, None), "group": [C("k")]}
            self.filt(q, None, [("id", "I")])
            return ("sub", q), [("k", "I"), ("m", "I")], "k"
        q = {"select": [(C("id"), "id"), (C("s"), "s"), (("bin", "+", C("n"), C("k")), "n")], "from_": (t, None)}
        q["select"][2] = (q["select"][2][0], "e")
        self.filt(q, None, [("id", "I"), ("k", "I")])
        return ("sub", q), [("id", "I"), ("s", "s"), ("e", "i")], "id"

    def filt(self, q, a, cols, p=0.4):
        ints = [c for c, t in cols if t == "I"]
        if ints and self.rnd(p):
            q["where"] = self.cond(a, ints)

    def cond(self, a, ints):
        r = self.rng
        c = C(r.choice(ints), a)
        k = r.random()
        if k < 0.6:
            return ("bin", r.choice(["<", ">", "<=", ">=", "!=", "="]), c, ("lit", r.randint(0, 9)))
        if k < 0.75:
            return ("in", c, [("lit", x) for x in r.sample(range(0, 10), r.randint(1, 4))], False)
        if k < 0.85:
            return ("between", c, ("lit", r.randint(0, 4)), ("lit", r.randint(3, 9)), False)
        return ("bin", r.choice(["or", "and"]), self.cond(a, ints), self.cond(a, ints))

    def sub_pred(self, a, cols):
        """A predicate on a subquery, for an outer row of alias a (None: not correlatable)."""
        r = self.rng
        ints = [c for c, t in cols if t == "I"]
        anyint = [c for c, t in cols if t in "Ii"]
        k = r.random()
        if k < 0.35 and anyint:
            self.kinds.add("in")
            inner, ic = self.single(a, ints)
            neg = self.rnd(0.35)
            return ("insub", C(r.choice(anyint), a), inner, neg)
        if k < 0.65:
            self.kinds.add("exists")
            inner, ic = self.single(a, ints, True)
            return ("exists", inner, self.rnd(0.4))
        if ints:
            self.kinds.add("scalar")
            sub, col = self.scalar(a, ints), C(r.choice(ints), a)
            # a bare column compared with a subquery that may be NULL is pushed to the source (finding pushdown-compare)
            safe = sub["select"][0][0][0] == "agg" and sub["select"][0][0][1] in ("max", "min", "sum") and sub["select"][0][0][2][2] != "n" and not sub.get("where") and self.tables[sub["from_"][0][1]]
            return ("bin", r.choice(["<", ">", "=", "!=", "<=", ">="]), col if safe else ("bin", "+", col, ("lit", 0)), ("scalar", sub))
        self.kinds.add("exists")
        return ("exists", self.single(None, ints, True)[0], False)

    def single(self, a, ints, exists=False):
        """Inner query of IN/EXISTS: one int column; correlated when a is given."""
        r = self.rng
        self.inner += 1
        t = ("table", r.choice(["t1", "t2", "t3"]))
        b = r.choice([x for x in ("b", "y", "z") if x != a])
        col = r.choice(["id", "k", "n", "n"])
        sel = [(("lit", 1), "one")] if exists and self.rnd(0.3) else [(C(col, b), col)]
        q = {"select": sel, "from_": (t, b)}
        conds = []
        if self.rnd(0.5):
            conds.append(self.cond(b, ["id", "k"]))
        if a and ints and self.rnd(0.55):
            self.kinds.add("correlated")
            if self.rnd(0.7):
                c2 = r.choice(["id", "k"])
                conds.append(("bin", "=", C(c2, b), C(r.choice(ints), a)))
                if sel[0][0][0] == "col" and sel[0][0][2] == c2:
                    q["select"] = [(C("n", b), "n")]
            else:
                self.kinds.add("corr_cmp")
                conds.append(("bin", r.choice(["<", ">", "<=", ">="]), C(r.choice(["id", "k"]), b), C(r.choice(ints), a)))
                q["select"] = [(C("n" if conds[-1][2][2] != "n" else "id", b), "n")]
        else:
            if self.rnd(0.2) and sel[0][0][0] == "col":
                q["distinct"] = True
            elif self.rnd(0.15):
                q["select"], q["group"] = [(("agg", "max", C("n", b), False), "m")], [C("k", b)]
            elif self.rnd(0.15):
                q = {"select": [(C(col, "zz"), col)], "from_": (("sub", {"select": [(C("id"), "id"), (C("k"), "k"), (C("n"), "n")], "from_": (t, None)}), "zz")}
                conds = [self.cond("zz", ["id", "k"])] if self.rnd(0.5) else []
        if conds:
            w = conds[0]
            for x in conds[1:]:
                w = ("bin", "and", w, x) if self.rnd(0.5) else ("bin", "and", x, w)
            q["where"] = w
        return q, col

    def scalar(self, a, ints):
        """At most one row, one int column."""
        r = self.rng
        self.inner += 1
        t = ("table", r.choice(["t1", "t2", "t3"]))
        b = r.choice([x for x in ("b", "y", "z") if x != a])
        if a and ints and self.rnd(0.55):
            self.kinds.add("correlated")
            w = ("bin", "=", C("id", b), C(r.choice(ints), a))
            if self.rnd(0.4):
                w2 = self.cond(b, ["k", "id"])
                w = ("bin", "and", w, w2)
            if self.rnd(0.35):
                kk = C("k", b)
                g = r.random()
                if g < 0.5:
                    x = ("agg", r.choice(["sum", "max", "min", "count"]), C("id", b), False)
                elif g < 0.65:
                    x = ("agg", "avg", C("id", b), False)
                elif g < 0.8:
                    x = ("agg", "count", C(r.choice(["id", "n"]), b), True)
                else:
                    x = ("bin", r.choice(["+", "*", "-"]), ("agg", r.choice(["sum", "max", "min"]), C("id", b), False), ("lit", r.randint(1, 4)))
                q = {"select": [(x, "m")], "from_": (t, b), "where": ("bin", "=", kk, C(r.choice(ints), a))}
                if self.rnd(0.25):
                    self.kinds.add("corr_having")
                    q["having"] = ("bin", r.choice([">", "<", ">=", "<=", "!="]), C("m"), ("lit", r.randint(0, 12)))
                return q
            return {"select": [(C(r.choice(["k", "n"]), b), None)], "from_": (t, b), "where": w}
        k = r.random()
        if k < 0.4:
            q = {"select": [(("agg", r.choice(["sum", "max", "min", "count"]), C(r.choice(["id", "k", "n"]), b), False), "m")], "from_": (t, b)}
            self.filt(q, b, [("id", "I"), ("k", "I")])
            return q
        if k < 0.7:
            return {"select": [(C(r.choice(["k", "n"])), None)], "from_": (t, None), "where": ("bin", "=", C("id"), ("lit", r.randint(0, 12)))}
        return {"select": [(C("id"), None)], "from_": (t, None), "order": [(C("id"), self.rnd(0.5))], "limit": 1}

    def query(self, d, ctes, top=False):
        """-> (query, [(name, type)])."""
        r = self.rng
        if not top and self.rnd(0.12):
            return self.union(d, ctes)
        a = r.choice(AL)
        src, cols, key = self.source(d, ctes, 0.85 if top else 0.5)
        q = {"from_": (src, a)}
        joined = None
        if self.rnd(0.25):
            ints = [c for c, t in cols if t == "I"]
            if ints:
                b = r.choice([x for x in AL if x != a])
                s2, cols2, key2 = self.keyed(d, ctes)
                if s2[0] == "sub" or src[0] == "sub":
                    self.kinds.add("joined_nested")
                if s2 != src:
                    q["joins"] = [(r.choice(["INNER JOIN", "LEFT JOIN"]), s2, b, ("bin", "=", C(key2, b), C(r.choice(ints), a)))]
                    joined = (b, cols2, q["joins"][0][0] == "LEFT JOIN")
        elif src[0] == "table" and self.rnd(0.3):
            q["from_"] = (src, None)
            a = None
        if self.rnd(0.4):
            self.filt(q, a, cols, 1)
        if a and self.rnd(0.3) and self.inner < 3:
            p = self.sub_pred(a, cols)
            q["where"] = p if q.get("where") is None else ("bin", r.choice(["and", "and", "or"]), q["where"], p) if self.rnd(0.6) else ("bin", "and", p, q["where"])
        have = [c for c, _ in cols]
        names = [x for x in r.sample(NAMES, len(NAMES)) if x not in have and not (joined and x in [c for c, _ in joined[1]])]
        if self.rnd(0.25) and not (joined and False):
            return self.grouped(q, a, cols, joined, names)
        out, sel = [], []
        for c, t in r.sample(cols, r.randint(1, len(cols))):
            if self.rnd(0.3) and names:
                n = names.pop()
            else:
                n = c
            sel.append((C(c, a), n))
            out.append((n, t))
        if joined:
            for c, t in r.sample(joined[1], r.randint(1, min(2, len(joined[1])))):
                if names:
                    n = names.pop()
                    sel.append((C(c, joined[0]), n))
                    out.append((n, t.lower() if joined[2] else t))
        ints = [c for c, t in cols if t == "I"]
        if names and self.rnd(0.3) and ints:
            n = names.pop()
            sel.append((("bin", r.choice(["+", "*", "-"]), C(r.choice(ints), a), ("lit", r.randint(1, 5))), n))
            out.append((n, "I"))
        if names and a and self.rnd(0.25) and self.inner < 3:
            n = names.pop()
            k = r.random()
            if k < 0.6:
                self.kinds.add("scalar")
                e = ("scalar", self.scalar(a, ints))
                if self.rnd(0.5):
                    e = r.choice([("bin", "+", e, ("lit", 1)), ("isnull", e, False), ("ifnull", e, ("lit", -7)), ("bin", ">", e, ("lit", 2)), ("func", "abs", [e])])
                sel.append((e, n))
                out.append((n, "i"))
            else:
                e = self.sub_pred(a, cols)
                sel.append((e, n))
                out.append((n, "i"))
        q["select"] = sel
        q["select"] = [(e, n) for e, n in sel]
        if self.rnd(0.15):
            q["distinct"] = True
        self.tail(q, out)
        return q, out

    def tail(self, q, out, p=0.25):
        if self.rnd(p) and len({n for n, _ in out}) == len(out) and not any(M.contains(e, "scalar") or M.contains(e, "insub") or M.contains(e, "exists") for e, _ in q["select"]):
            q["order"] = [(C(n), self.rnd(0.4)) for n, _ in out]
            if self.rnd(0.6):
                q["limit"] = self.rng.randint(0, 6)
                q["offset"] = self.rng.choice([None, None, 0, 1, 2])

    def grouped(self, q, a, cols, joined, names):
        r = self.rng
        keys = r.sample(cols, r.randint(1, min(2, len(cols))))
        sel = [(C(c, a), c) for c, _ in keys]
        out = list(keys)
        nums = [c for c, t in cols if t in "Ii"]
        for _ in range(r.randint(1, 2)):
            if not names:
                break
            n = names.pop()
            if nums and self.rnd(0.7):
                f = r.choice(["sum", "count", "min", "max"])
                sel.append((("agg", f, C(r.choice(nums), a), False), n))
                out.append((n, "I" if f in ("sum", "count") else "i"))
            else:
                sel.append((("agg", "count", None, False), n))
                out.append((n, "I"))
        q["select"], q["group"] = sel, [C(c, a) for c, _ in keys]
        hv = [n for n, t in out[len(keys):] if t == "I"]
        if hv and self.rnd(0.4):
            if self.rnd(0.4):
                self.kinds.add("having_sub")
                q["having"] = ("bin", r.choice(["<", ">", ">=", "!="]), C(r.choice(hv)), ("scalar", self.scalar(None, [])))
            else:
                q["having"] = self.cond(None, hv)
        self.tail(q, out, 0.2)
        return q, out

    def union(self, d, ctes):
        r = self.rng
        t1, t2 = r.choice(["t1", "t2"]), r.choice(["t1", "t2", "t3"])
        cs = r.sample(["id", "k", "t"], r.randint(1, 3))
        ty = dict(BASE)
        q = {"setop": [("UNION", {"select": [(C(c), c) for c in cs], "from_": (("table", t1), None)}), (r.choice(["UNION", "UNION ALL"]), {"select": [(C(c), c) for c in cs], "from_": (("table", t2), None)})]}
        for _, b in q["setop"]:
            self.filt(b, None, BASE)
        return q, [(c, ty[c]) for c in cs]


def make(rng, i, tier):
    nulls = rng.choice([0, 0, 0.25])
    tables = {t: tab(rng, rng.choice([0, 2, 5, 9]) if rng.random() < 0.4 else rng.randint(4, 9), nulls) for t in ("t1", "t2", "t3")}
    stmts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        g = G(rng, tables)
        ctes, with_ = [], []
        if rng.random() < 0.4:
            for n in range(rng.randint(1, 3)):
                q, cols = g.query(rng.randint(0, 1), list(ctes) if rng.random() < 0.6 else [])
                if ctes and M_uses(q, [c for c, _ in ctes]):
                    g.kinds.add("cte_chain")
                name = ["c1", "c2", "c3"][n]
                with_.append((name, q))
                ctes.append((name, cols))
        q, cols = g.query(rng.choice([1, 2, 2, 3]), ctes, True)
        if with_:
            q = dict(q, **{"with": with_})
            if rng.random() < 0.15 and not q.get("setop"):
                q = {"select": [(C(n), n) for n, _ in cols], "from_": (("sub", q), rng.choice(AL))}
        stmts.append((q, sorted(g.kinds), rng.random() < 0.35))
    return {"tables": tables, "stmts": stmts}


def M_uses(q, names):
    return any("'table', '%s'" % n in repr(q) for n in names)


def subs_of(q):
    """Direct derived sources of a query."""
    out = []
    if q.get("from_") and q["from_"][0][0] == "sub":
        out.append(("from", None))
    for j, x in enumerate(q.get("joins") or []):
        if x[1][0] == "sub":
            out.append(("join", j))
    return out


def used_names(q):
    r = set()
    def walk(x):
        if isinstance(x, dict):
            if x.get("from_"):
                r.add(x["from_"][1])
            for y in x.values():
                walk(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
    walk(q)
    return r


def run(case, obs):
    tables = case["tables"]
    e = eng.engine(tables)
    before = set(eng.memory_tables(e))
    seen = set()
    for q, kinds, two in case["stmts"]:
        fill(q)
        sql = M.qsql(q)
        m = M.Model(tables)
        want = m.query(q)
        got = eng.attempt(eng.query, e, sql)
        obs.hit("queries")
        ordered = bool(q.get("order"))
        if not eng.same_rows(got, want, ordered):
            m2 = M.Model(tables)
            m2.insub_skips_null = True
            if eng.same_rows(got, m2.query(q), ordered):
                obs.finding("in-subquery-null", {"sql": sql, "tables": tables, "got": got, "want": want})
                obs.hit("null_in")
                continue
            obs.fail("nest", "rows of the nested query differ", sql=sql, got=got, want=want, tables=tables, earlier=[M.qsql(x[0]) for x in case["stmts"]])
            return
        for k in kinds:
            obs.hit(k)
        obs.hit("null_in", "NULL" not in sql and m.null_in)
        obs.hit("empty_scalar", m.empty_scalar)
        names = used_names(q) | {n for n, _ in q.get("with") or []}
        obs.hit("reused_names", bool(seen & (names - {None})))
        seen |= names - {None}
        if got and kinds:
            obs.nontrivial(sql, want)
            obs.sample({"sql": sql, "rows": len(want)})
        subs = subs_of(q)
        if two and subs and not q.get("with"):
            where, j = subs[0]
            q2 = copy.deepcopy(q)
            if where == "from":
                inner, alias = q2["from_"]
                q2["from_"] = (("table", "stored"), alias)
            else:
                kind, inner, alias, on = q2["joins"][j]
                q2["joins"][j] = (kind, ("table", "stored"), alias, on)
            e2 = eng.engine(tables)
            r = eng.attempt(e2.execute, "INSERT INTO `stored<I>` " + M.qsql(inner[1]))
            got2 = eng.attempt(eng.query, e2, M.qsql(q2))
            obs.hit("two_step")
            if not eng.same_rows(got, got2, ordered):
                obs.fail("two-step", "nested query differs from querying its stored inner result", sql=sql, got=got, stored=got2, step=M.qsql(q2), tables=tables, raised=r)
                return
        left = set(eng.memory_tables(e)) - before - {"vout"}
        if left:
            obs.fail("residue", "temporary tables remain after the statement", sql=sql, left=sorted(left))
            return


def fill(q):
    """Name unnamed single columns by their source column."""
    if isinstance(q, dict):
        if isinstance(q.get("select"), list):
            q["select"] = [(e, n or e[2]) for e, n in q["select"]]
        for v in q.values():
            fill(v)
    elif isinstance(q, (list, tuple)):
        for v in q:
            fill(v)


def probes(obs):
    t = {"t1": [{"id": 1}, {"id": 2}], "t2": [{"k": 1}, {"k": None}]}
    got = eng.attempt(eng.query, eng.engine(t), "SELECT id, id IN (SELECT k FROM t2) AS c FROM t1")
    if got == [{"id": 1, "c": 1}, {"id": 2, "c": 0}]:
        obs.finding("in-subquery-null", {"sql": "id IN (SELECT k FROM t2) with a NULL k", "got": got})
    elif got != [{"id": 1, "c": 1}, {"id": 2, "c": None}]:
        obs.fail("probe", "IN subquery with NULL", got=got)
    t = {"t1": [{"id": 2}], "t2": [{"k": 1}, {"k": 1}, {"k": 2}]}
    got = eng.attempt(eng.query, eng.engine(t), "SELECT a.id, (SELECT count(*) c FROM t2 b WHERE b.k <= a.id) AS n FROM t1 a")
    if got == [{"id": 2, "n": [2, 1]}]:
        obs.finding("correlated-compare-aggregate", {"sql": "(SELECT count(*) FROM t2 b WHERE b.k <= a.id) with k = 1, 1, 2", "got": got})
    elif got != [{"id": 2, "n": 3}]:
        obs.fail("probe", "aggregate subquery correlated by a comparison", got=got)
    t = {"t1": [{"id": 1}, {"id": 2}], "t2": [{"k": 1, "v": 5}, {"k": 2, "v": 3}]}
    got = eng.attempt(eng.query, eng.engine(t), "SELECT a.id, (SELECT b.v FROM t2 b WHERE b.k = a.id ORDER BY b.v LIMIT 1) AS n FROM t1 a")
    if got == [{"id": 1, "n": None}, {"id": 2, "n": 3}]:
        obs.finding("correlated-limit", {"sql": "(SELECT b.v FROM t2 b WHERE b.k = a.id ORDER BY b.v LIMIT 1)", "got": got})
    elif got != [{"id": 1, "n": 5}, {"id": 2, "n": 3}]:
        obs.fail("probe", "LIMIT in a correlated subquery", got=got)
