"""C08: DISTINCT and UNION / UNION ALL against set and multiset combination of the branches."""
from vlib import eng, gen, sqlmodel as M

META = {"id": "C08", "sizes": {"quick": 14000, "thorough": 180000},
        "rule": "SELECT DISTINCT over columns/expressions/joins/groups/subqueries, and chains of 2-5 UNION/UNION ALL branches (plain, filtered, expression, constant, grouped, joined, distinct, limited, empty, nested parenthesised unions, different column names and types per branch), bare or inside a derived table, CTE or IN list, with ORDER BY/LIMIT on the whole; non-trivial = duplicates removed or kept across branches; distinct by (SQL, result)",
        "required": {"queries": 1000, "distinct": 300, "union": 500, "union_all": 500, "mixed": 200, "dups_removed": 1000, "dups_kept": 1000, "derived": 300, "empty_branch": 200, "whole_limit": 200, "nested": 100}}
C = lambda n, a=None: ("col", a, n)
S = ["a", "b", "c", "A", "", "1", "é"]


def tab(rng, n, nulls):
    rows = []
    for i in range(n):
        r = {"id": i + 1, "k": rng.randint(0, 3), "n": rng.choice([0, 1, 2, -1, 2.5]), "s": rng.choice(S), "t": rng.choice(["x", "y"])}
        for c in "knst":
            if rng.random() < nulls:
                r[c] = None
        rows.append(r)
    return rows


def cols_for(rng, ex, types, a=None):
    out = []
    for t in types:
        k = rng.random()
        if k < 0.1:
            out.append(("lit", rng.choice([None, 1, 2, "a", "x", 2.5])))
        elif k < 0.3:
            out.append(ex.numeric(1) if t == "i" else ex.string(1))
        else:
            out.append(C(rng.choice("kn"), a) if t == "i" else C(rng.choice("st"), a))
    return out


def named(rng, es, first):
    """aliases: first branch and the others may name (and order the names of) columns differently."""
    pool = rng.sample(["p", "q", "r", "u", "v", "w"], len(es))
    if not first and rng.random() < 0.6:
        pool = rng.sample(["r", "p", "q", "zz", "id", "k"], len(es))
    out = []
    for e, a in zip(es, pool):
        if e[0] == "col" and rng.random() < 0.4 and e[2] not in [x[1] for x in out] and e[2] not in pool:
            a = e[2]
        out.append((e, a))
    return out


def branch(rng, types, d, first=False):
    """One SELECT with len(types) columns."""
    t = rng.choice(["t1", "t2"])
    k = rng.random()
    ex = gen.Ex(rng, [(None, "k", "i"), (None, "n", "f"), (None, "s", "s"), (None, "t", "s")], strs=S)
    q = {"from_": (("table", t), None)}
    if k < 0.12:
        return {"select": named(rng, [("lit", gen.ival(rng) if x == "i" else rng.choice(S)) for x in types], first)}
    if k < 0.24:
        keys = [C(rng.choice("kn")) if x == "i" else C(rng.choice("st")) for x in types]
        sel = [x if rng.random() < 0.6 or n == 0 else (("agg", "count", None, False) if types[n] == "i" else ("agg", "max", C("s"), False)) for n, x in enumerate(keys)]
        q["group"] = [e for e in sel if e[0] == "col"]
        q["select"] = [(e, e[2] if e[0] == "col" and a == e[2] else a if a not in "idknst" else a + "1") for e, a in named(rng, sel, first)]
        return filt(rng, q)
    if k < 0.34:
        q["from_"] = (("table", t), "a")
        q["joins"] = [(rng.choice(["LEFT JOIN", "INNER JOIN"]), ("table", "t3"), "b", ("bin", "=", C("id", "b"), C("id", "a")))]
        ex = gen.Ex(rng, [("a", "k", "i"), ("b", "n", "f"), ("b", "s", "s"), ("a", "t", "s")], strs=S)
        es = [rng.choice([C("k", "a"), C("n", "b"), ex.numeric(1)]) if x == "i" else rng.choice([C("s", "b"), C("t", "a")]) for x in types]
        q["select"] = named(rng, es, first)
        if rng.random() < 0.4:
            q["where"] = ("bin", rng.choice([">", "<"]), C("id", "a"), ("lit", rng.randint(0, 8)))
        if rng.random() < 0.4:
            q["distinct"] = True
        return q
    if k < 0.42:
        q["from_"] = (("sub", {"select": [(C(c), c) for c in ("id", "k", "n", "s", "t")], "from_": (("table", t), None)}), "z")
    q["select"] = named(rng, cols_for(rng, ex, types), first)
    filt(rng, q)
    if rng.random() < 0.25:
        q["distinct"] = True
    if d and rng.random() < 0.15 and q["from_"][0][0] == "table":
        q["order"] = [(C("id"), rng.random() < 0.5)] if not q.get("distinct") else [(C(a), False) for _, a in q["select"]]
        if any(a == "id" for _, a in q["select"]):
            q["order"] = None
        q["limit"] = rng.randint(0, 5)
        q["par"] = True
    return q


def const_only(q):
    return not any(M.contains(e, "col") for e, _ in q["select"])


def filt(rng, q):
    if rng.random() < 0.35:
        q["where"] = ("bin", rng.choice([">", "<", ">=", "!="]), C("id"), ("lit", rng.randint(0, 9)))
    elif rng.random() < 0.08:
        q["where"] = ("bin", ">", C("id"), ("lit", 1000))
    return q


def setop(rng, types, d):
    ops = []
    for n in range(rng.choice([2, 2, 3, 4]) + (rng.random() < 0.1)):
        b = setop(rng, types, d - 1) if d and rng.random() < 0.1 else branch(rng, types, n == 0 or True, n == 0)
        if n == 0 and b.get("setop") and b["setop"][0][1].get("par"):
            b["setop"].reverse()        # sqlglot cannot parse WITH x AS (((SELECT ...
        if n == 0 and b.get("setop") and b["setop"][0][1].get("par"):
            b = branch(rng, types, False, True)
        ops.append((rng.choice(["UNION", "UNION ALL"]), b))
    return {"setop": ops}


def make(rng, i, tier):
    nulls = rng.choice([0, 0.25])
    tables = {"t1": tab(rng, rng.choice([0, 1, 3, 6, 12]), nulls), "t2": tab(rng, rng.choice([0, 2, 5, 9]), nulls), "t3": tab(rng, rng.choice([0, 3, 8]), nulls)}
    types = [rng.choice("iis") for _ in range(rng.randint(1, 4))]
    k = rng.random()
    if k < 0.25:
        q = branch(rng, types, False, True)
        while not q.get("from_"):
            q = branch(rng, types, False, True)
        q["distinct"] = True
        kind = "distinct"
        if not q.get("group") and rng.random() < 0.2:
            q["select"] = [(gen.jitted(rng, x, 0.7), a) for x, a in q["select"]]
        if q.get("group") is None and rng.random() < 0.3:
            q["order"] = [(C(a), rng.random() < 0.5) for _, a in q["select"]]
            if rng.random() < 0.5:
                q["limit"] = rng.randint(0, 4)
                q["offset"] = rng.choice([None, 0, 1, 3])
    else:
        q = setop(rng, types, 1)
        kind = "setop"
        last = q["setop"][-1][1]
        names = first_names(q)
        if not (last.get("par") or last.get("setop")) and homogenous(types, q):
            if rng.random() < 0.3:
                q["order"] = [(C(a), rng.random() < 0.5) for a in names]
            if rng.random() < 0.2:
                q["limit"] = rng.randint(0, 7)
                q["offset"] = rng.choice([None, None, 0, 2])
        if rng.random() < 0.35:
            inner = {"setop": q["setop"]}
            j = rng.random()
            cols = first_names(inner)
            if j < 0.35:
                q = {"select": [(C(a), a) for a in cols], "from_": (("sub", inner), "u1")}
                if types[0] == "i":
                    q["where"] = ("isnull", C(cols[0]), rng.random() < 0.8)
                kind = "derived"
            elif j < 0.7:
                q = {"select": [(C(cols[0]), "g1"), (("agg", "count", None, False), "c1")], "from_": (("sub", inner), "u1"), "group": [C(cols[0])]}
                kind = "derived"
            elif j < 0.85:
                q = {"with": [("ct", inner)], "select": [(C(a), a) for a in cols], "from_": (("table", "ct"), None)}
                kind = "derived"
            else:
                one = setop(rng, ["i"], 0)
                q = {"select": [(C("id"), "id")], "from_": (("table", "t1"), None), "where": ("insub", C("id"), one, False)}
                kind = "derived"
    return {"tables": tables, "q": q, "kind": kind}


def first_names(q):
    while q.get("setop"):
        q = q["setop"][0][1]
    return [a for _, a in q["select"]]


def homogenous(types, q):
    """Ordering is only defined when a column holds one kind of value; constants may mix them."""
    return not any(e[0] == "lit" for b in q["setop"] if not b[1].get("setop") for e, _ in b[1]["select"]) and not any(b[1].get("setop") for b in q["setop"])


def run(case, obs):
    q, tables = case["q"], case["tables"]
    sql = M.qsql(q)
    want = M.Model(tables).query(q)
    got = eng.attempt(eng.query, eng.engine(tables), sql)
    obs.hit("queries")
    obs.hit(case["kind"])
    if not eng.same_rows(got, want, bool(q.get("order"))):
        obs.fail("sets", "combined rows differ", sql=sql, got=got, want=want, tables=tables)
        return
    if q.get("setop"):
        ks = {k for k, _ in q["setop"][1:]}
        obs.hit("union", "UNION" in ks)
        obs.hit("union_all", "UNION ALL" in ks)
        obs.hit("mixed", len(ks) > 1)
        obs.hit("whole_limit", q.get("limit") is not None)
        obs.hit("nested", any(b.get("setop") for _, b in q["setop"]))
        alln = M.Model(tables).query({"setop": [("UNION ALL", b) for _, b in q["setop"]]})
        obs.hit("empty_branch", any(not M.Model(tables).query(b) for _, b in q["setop"]))
        removed = 0 if q.get("limit") is not None else len(alln) - len(want)
        kept = len(want) - len(M.dedup(want))
        obs.hit("dups_removed", max(0, removed))
        obs.hit("dups_kept", kept)
        if removed > 0 or kept:
            obs.nontrivial(sql, want)
            obs.sample({"sql": sql, "rows": len(want)})
    elif case["kind"] == "distinct" and not q.get("group"):
        alln = M.Model(tables).query(dict(q, distinct=False, limit=None, offset=None, order=None))
        n = len(alln) - len(M.dedup(alln))
        obs.hit("dups_removed", n)
        if n:
            obs.nontrivial(sql, want)
