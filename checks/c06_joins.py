"""C06: joins against nested-loop pairing."""
from vlib import eng, gen, quirk, sqlmodel as M

META = {"id": "C06", "sizes": {"quick": 14000, "thorough": 160000}, "probes": True,
        "rule": "2-4 tables x chain of LEFT/INNER/JOIN/leading RIGHT joins (single and composite keys, unique and duplicate right keys, missing and NULL keys, extra ON conditions on either table, IN lists), WHERE over either side, projections mixing tables, grouping, subqueries and CTE as sources, a table joined again (to itself or to others), @join_batch 1..10000; non-trivial = some row matched and some row unmatched or multiplied; distinct by (SQL, result)",
        "required": {"queries": 1000, "matched": 2000, "unmatched": 500, "multiplied": 300, "inner": 200, "right": 200, "small_batch": 300, "grouped": 100, "comma": 50, "cross": 50, "key_expression": 1000, "same_table": 500, "jit": 30}}
VALS = ["p", "q", "r", "s t", "é", ""]


def tab(rng, name, n, nulls, unique=None):
    rows, used = [], set()
    for i in range(n):
        r = {"id": i + 1, "k": rng.randint(0, 4), "j": rng.randint(0, 2), "v": rng.choice(VALS), "n": rng.randint(-5, 9)}
        for c in ("k", "j", "v", "n"):
            if rng.random() < nulls:
                r[c] = None
        if unique:
            key = tuple(r[c] for c in unique)
            if key in used:
                continue
            used.add(key)
        rows.append(r)
    if rng.random() < 0.5:
        rng.shuffle(rows)
    return rows


def cross(rng):
    """FROM a, b / CROSS JOIN: every pair, restricted by WHERE."""
    n, style = 1, rng.choice([",", "CROSS JOIN"])
    tables, joins, aliases = {"t1": tab(rng, "t1", rng.choice([0, 1, 3, 5, 8]), 0.1)}, [], ["a"]
    for x in range(n):
        name, al = "t%d" % (x + 2), "bcd"[x]
        if rng.random() < 0.1:
            name = "t1"
        else:
            tables[name] = tab(rng, name, rng.choice([1, 1, 3, 5, 8]), 0.1)     # an empty one keeps the rows of the other
        joins.append((style, ("table", name), al, None))
        aliases.append(al)
    q = {"from_": (("table", "t1"), "a"), "joins": joins}
    if style != "," and rng.random() < 0.3:
        al, to = "bcd"[n], aliases[-1]
        tables["t5"] = tab(rng, "t5", rng.choice([0, 3, 6]), 0, ["v"])
        joins.append((rng.choice(["LEFT JOIN", "INNER JOIN"]), ("table", "t5"), al, ("bin", "=", ("col", al, "v"), ("col", to, "v"))))
        tables[joins[-2][1][1]] = [dict(r, v=r["v"] or "") for r in tables[joins[-2][1][1]]]
        aliases.append(al)
    conds = []
    for z, al in enumerate(aliases[1:n + 1]):
        to, k = aliases[z], rng.random()
        if k < 0.4:
            c = rng.choice(["k", "v", "id"])
            conds.append(("bin", "=", ("col", to, c), ("col", al, c)))
        elif k < 0.55:
            conds.append(("bin", rng.choice(["<", ">=", "!="]), ("col", to, "id"), ("col", al, "id")))
        elif k < 0.7:
            conds.append(("bin", "=", ("col", to, "id"), ("bin", rng.choice("+-"), ("col", al, "id"), ("lit", rng.randint(0, 3)))))
        elif k < 0.85:
            conds.append(("bin", "or", ("bin", "=", ("col", to, "k"), ("col", al, "k")), ("bin", "=", ("col", to, "id"), ("col", al, "id"))))
        if rng.random() < 0.3:
            conds.append(safe(rng, rng.choice(aliases[:n + 1])))
    rng.shuffle(conds)
    for c in conds:
        q["where"] = ("bin", "and", q["where"], c) if q.get("where") else c
    if len(aliases) == 2 and rng.random() < 0.2:
        g = ("col", aliases[rng.randrange(n + 1)], rng.choice(["k", "v"]))
        q["group"] = [g]
        q["select"] = [(g, "g"), (("agg", "count", None, False), "cnt")] + [
            (("agg", rng.choice(["sum", "min", "max", "count"]), ("col", al, "n"), False), "x_" + al) for al in aliases]
    else:
        q["select"] = [(("col", al, "id"), al + "_id") for al in aliases]
        ex = gen.Ex(rng, [(al, c, "s" if c == "v" else "i") for al in aliases for c in ("id", "k", "v", "n")], strs=VALS)
        for z in range(rng.randint(0, 2)):
            q["select"].append((ex.numeric(rng.randint(0, 2)) if rng.random() < 0.6 else ex.string(1), "e%d" % z))
        rng.shuffle(q["select"])
    return {"tables": tables, "q": q, "batch": rng.choice([1, 2, 3, 5, 10000, 10000, 10000])}


def make(rng, i, tier):
    if rng.random() < 0.12:
        return cross(rng)
    njoin = rng.choice([1, 1, 1, 2, 2, 3])
    nullboth = rng.random() < 0.1
    lnull = rng.choice([0, 0.2])
    rnull = 0 if lnull and not nullboth else rng.choice([0, 0.2])
    tables = {"t1": tab(rng, "t1", gen.nrows(rng), lnull)}
    uniq, same = {}, 0
    if rng.random() < 0.15:
        tables["t1"], uniq["t1"] = tab(rng, "t1", 8, rnull, ["k"]), ["k"]
    many = rng.randint(0, njoin)          # at most one join multiplies rows
    joins, aliases, exprs = [], ["a"], 0
    for x in range(njoin):
        name, al = "t%d" % (x + 2), "bcd"[x]
        keys = rng.choice([["k"], ["k"], ["v"], ["k", "j"], ["k", "v"]])
        tables[name] = tab(rng, name, rng.choice([0, 1, 3, 6, 10, 15]), rnull, None if x == many else keys)
        kind = rng.choice(["LEFT JOIN", "LEFT JOIN", "LEFT OUTER JOIN", "INNER JOIN", "INNER JOIN", "INNER JOIN", "JOIN"])
        if x == 0 and rng.random() < 0.2:
            kind = "RIGHT JOIN"
            uniq.clear()
            tables["t1"], tables[name] = (tables["t1"] if x == many else tab(rng, "t1", 6, lnull, keys)), tables[name]
        old = [t for t in uniq if set(uniq[t]) <= set(keys)] if x != many else [t for t in tables if t != name]
        if kind != "RIGHT JOIN" and old and rng.random() < 0.3:
            del tables[name]
            name = rng.choice(sorted(old))          # a table read before, joined again
            same += 1
        elif x != many:
            uniq[name] = keys
        to = rng.choice(aliases)
        if rng.random() < 0.6:
            to = aliases[-1] if rng.random() < 0.5 else "a"
        conds = []
        for c in keys:
            pair = [("col", al, c), ("col", to, c)]
            rng.shuffle(pair)
            conds.append(("bin", "=", pair[0], pair[1]))
        if len(keys) == 1 and kind != "RIGHT JOIN" and rng.random() < 0.25:
            side = keyexpr(rng, aliases, keys[0])
            if side:
                conds = [("bin", "=", ("col", al, keys[0]), side)]
                exprs += 1
        if rng.random() < 0.35:
            conds.append(extra(rng, al))
        if rng.random() < 0.12:
            conds.append(extra(rng, to if to != al else "a"))
        if rng.random() < 0.3:
            rng.shuffle(conds)
        on = conds[0]
        for c in conds[1:]:
            on = ("bin", "and", on, c)
        src = ("table", name)
        if rng.random() < 0.12 and tables[name]:
            src = ("sub", {"select": [(("col", None, c), c) for c in ("id", "k", "j", "v", "n")], "from_": (("table", name), None),
                           "where": ("bin", ">", ("col", None, "id"), ("lit", rng.randint(0, 3)))})
        joins.append((kind, src, al, on))
        aliases.append(al)
    q = {"from_": (("table", "t1"), "a"), "joins": joins}
    cols = [(al, c, "s" if c == "v" else "i") for al in aliases for c in ("id", "k", "v", "n")]
    ex = gen.Ex(rng, cols, strs=VALS)
    r = rng.random()
    if r < 0.45:
        q["where"] = where(rng, ex, aliases)
    if rng.random() < 0.15:
        g = ("col", rng.choice(aliases), rng.choice(["k", "v"]))
        q["group"] = [g]
        q["select"] = [(g, "g"), (("agg", "count", None, False), "cnt")]
        for al in rng.sample(aliases, min(2, len(aliases))):
            q["select"].append((("agg", rng.choice(["sum", "min", "max", "count"]), ("col", al, "n"), False), "x_" + al))
    else:
        q["select"] = [(("col", al, "id"), al + "_id") for al in (aliases if rng.random() < 0.7 else rng.sample(aliases, rng.randint(1, len(aliases))))]
        for z in range(rng.randint(0, 2)):
            q["select"].append((ex.numeric(rng.randint(0, 2)) if rng.random() < 0.6 else ex.string(1), "e%d" % z))
        if rng.random() < 0.3:
            al = rng.choice(aliases)
            q["select"].append((("col", al, "v"), rng.choice(["v", "w"])))
        if rng.random() < 0.3:
            rng.shuffle(q["select"])
    if rng.random() < 0.1:
        q["select"] = [(gen.jitted(rng, x), n) for x, n in q["select"]]
        if "where" in q:
            q["where"] = gen.jitted(rng, q["where"], 0.2)
    if any(j[3] and composite(j[3]) for j in joins):
        return {"tables": tables, "q": q, "batch": 10000, "exprs": exprs, "same": same}       # see known finding composite-join-batch
    return {"tables": tables, "q": q, "batch": rng.choice([1, 2, 3, 5, 10000, 10000, 10000]), "exprs": exprs, "same": same}


def keyexpr(rng, aliases, key):
    """An expression over the tables joined so far, to be the key of the next."""
    ex = gen.Ex(rng, [(al, c, "s" if c == "v" else "i") for al in aliases for c in ("id", "k", "v", "n")], strs=VALS)
    for _ in range(5):
        e = ex.string(2) if key == "v" else ex.numeric(2)
        if "('col', " in repr(e):
            return e


def composite(on):
    if on[0] != "bin":
        return False
    n = 0
    for c in quirk.conjuncts(on):
        n += c[0] == "bin" and c[1] == "=" and c[2][0] == "col" and c[3][0] == "col"
    return n > 1


def extra(rng, al):
    k = rng.random()
    if k < 0.35:
        return ("bin", rng.choice(["=", ">", ">=", "<", "!="]), ("col", al, "id"), ("lit", rng.randint(1, 6)))
    if k < 0.6:
        return ("in", ("col", al, "id"), [("lit", x) for x in rng.sample(range(1, 9), rng.randint(1, 3))], False)
    if k < 0.8:
        return ("bin", "=", ("col", al, "n"), ("lit", rng.randint(0, 4)))
    return ("bin", "=", ("col", al, "v"), ("lit", rng.choice(["p", "q"])))


def safe(rng, al):
    """A simple comparison on a column that is never NULL in its table."""
    return ("bin", rng.choice(["=", ">", ">=", "<", "!="]), ("col", al, "id"), ("lit", rng.randint(1, 8)))


def where(rng, ex, aliases):
    k = rng.random()
    if k < 0.3:
        return safe(rng, rng.choice(aliases))
    if k < 0.45:
        return ("isnull", ("col", rng.choice(aliases), rng.choice(["id", "v"])), rng.random() < 0.5)
    if k < 0.6:
        return ("bin", "and", safe(rng, aliases[0]), safe(rng, aliases[-1]))
    if k < 0.8:
        return ("bin", "or", safe(rng, rng.choice(aliases)), safe(rng, rng.choice(aliases)))
    if k < 0.9:
        a, b = rng.choice(aliases), rng.choice(aliases)
        return ("bin", rng.choice(["<", "<=", "="]), ("bin", "+", ("col", a, "id"), ("lit", 0)), ("bin", "+", ("col", b, "n"), ("lit", 1)))
    return ("not", ("bin", "and", safe(rng, aliases[0]), ("isnull", ("col", aliases[-1], "id"), False)))


def run(case, obs):
    q, tables = case["q"], case["tables"]
    sql = M.qsql(q)
    m = M.Model(tables)
    want = m.query(q)
    e = eng.engine(tables, settings={"@join_batch": case["batch"]})
    got = eng.attempt(eng.query, e, sql)
    obs.hit("queries")
    base = m.query({"select": [(("col", al, "id"), al) for al in ["a"] + [j[2] for j in q["joins"]]], "from_": q["from_"], "joins": q["joins"]})
    last = q["joins"][-1][2]
    obs.hit("matched", sum(1 for r in base if r[last] is not None))
    un = sum(1 for r in base if None in r.values())
    obs.hit("unmatched", un)
    mult = len(base) - len({r["a"] for r in base})
    obs.hit("multiplied", max(0, mult))
    for j in q["joins"]:
        obs.hit({",": "comma"}.get(j[0], j[0].split()[0].lower()))
    obs.hit("small_batch", case["batch"] < 10)
    obs.hit("key_expression", case.get("exprs", 0))
    obs.hit("jit", "('jit'," in repr(q))
    obs.hit("same_table", case.get("same", 0))
    obs.hit("grouped", bool(q.get("group")))
    if case["batch"] < 10000 and chained(q) and not eng.same_rows(got, want) and (not isinstance(got, eng.Raised) or chained_batch(got, case["batch"])):
        whole = eng.attempt(eng.query, eng.engine(tables), sql)
        if eng.same_rows(whole, want):
            return obs.finding("chained-join-batch", sql)
    if not eng.same_rows(got, want):
        m.null_keys_join = True
        alt = m.query(q)
        if not eng.same_rows(alt, want) and eng.same_rows(got, alt):
            obs.finding("null-join-keys", sql)
        else:
            obs.fail("join", "joined rows differ", sql=sql, batch=case["batch"], got=got, want=want, tables={k: v[:12] for k, v in tables.items()})
    if un or mult > 0:
        obs.nontrivial(sql, want)
        obs.sample({"sql": sql, "rows": len(want)})


def chained(q):
    """Some table is joined through another joined table."""
    names = [j[2] for j in q["joins"]]
    return any(j[3] and any("('col', '%s', " % b in repr(j[3]) for b in names if b != j[2]) for j in q["joins"])


def chained_batch(got, batch):
    return batch < 10000 and isinstance(got, eng.Raised) and isinstance(got.e, RuntimeError) and "changed size during iteration" in str(got.e)


def probes(obs):
    tables = {"t1": [{"id": 8, "k": 0}, {"id": 4, "k": 4}, {"id": 1, "k": 2}, {"id": 7, "k": 4}, {"id": 3, "k": 2}], "t2": [{"id": 5, "k": 2, "v": 1}], "t3": [], "t4": []}
    for n in range(60):
        # which of the loaders is read first depends on the hashes of strings
        b, c, d = "b%d" % n, "c%d" % n, "d%d" % n
        sql = ("SELECT {b}.id AS b_id, a.id AS a_id, {c}.id AS c_id FROM t1 a JOIN t2 {b} ON {b}.k = a.k AND {b}.id IN (2, 5, 8) INNER JOIN t3 {c} ON {b}.v = {c}.v "
               "INNER JOIN t4 {d} ON a.k = {d}.k WHERE a.id != 7 OR {d}.id != 7").format(b=b, c=c, d=d)
        got = eng.attempt(eng.query, eng.engine(tables, settings={"@join_batch": 2}), sql)
        if chained_batch(got, 2):
            obs.finding("chained-join-batch", sql)
            break
        if not eng.same_rows(got, []):
            obs.fail("join", "chained joins in batches", sql=sql, got=got, want=[])
            break
    e = eng.engine({"t1": [{"id": 1, "k": None}, {"id": 2, "k": 5}], "t2": [{"id": 7, "k": None}, {"id": 8, "k": 5}]})
    got = eng.attempt(eng.query, e, "SELECT a.id, b.id AS b FROM t1 a LEFT JOIN t2 b ON a.k = b.k")
    obs.hit("probes")
    if eng.same_rows(got, [{"id": 1, "b": 7}, {"id": 2, "b": 8}]):
        obs.finding("null-join-keys", "LEFT JOIN ON a.k = b.k pairs the rows whose keys are both NULL")
    elif not eng.same_rows(got, [{"id": 1, "b": None}, {"id": 2, "b": 8}]):
        obs.fail("join", "probe", got=got)

    keys = [(0, 0), (0, 0), (1, 2), (1, 0), (0, 1), (None, 2), (3, None)]
    a = [{"id": i, "k": k, "j": j} for i, (k, j) in enumerate(keys)]
    e = eng.engine({"t1": a, "t2": [{"id": 9, "k": 1, "j": 0}]}, settings={"@join_batch": 3})
    got = eng.attempt(eng.query, e, "SELECT a.id, b.id AS b FROM t1 a LEFT JOIN t2 b ON a.k = b.k AND a.j = b.j")
    want = [{"id": i, "b": 9 if i == 3 else None} for i in range(7)]
    if not isinstance(got, eng.Raised) and got and not eng.same_rows(got, want) and {eng.nrow(r) for r in got} == {eng.nrow(r) for r in want}:
        obs.finding("composite-join-batch", "7 rows joined on (k, j) with @join_batch 3 give %d rows" % len(got))
    elif not eng.same_rows(got, want):
        obs.fail("join", "composite key in batches", got=got, want=want)
