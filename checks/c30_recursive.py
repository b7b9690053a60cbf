"""C30: recursive common table expressions give exactly the rows of the recursion; column lists name the columns."""
import sqlite3
from vlib import eng

META = {
    "id": "C30", "sizes": {"quick": 12000, "thorough": 150000}, "chunk": 60,
    "rule": "a generated statement with a recursive (or column-listed) common table expression or derived table ran on the engine and on an independent SQL implementation (sqlite) over the same rows; the recursion produced rows beyond its anchor, or a column list was given",
    "required": {"series": 800, "graph": 800, "closure": 500, "rows_walk": 500, "names": 700, "deep": 1500, "cyclic": 300, "rows": 20000, "settings": 1200, "insert": 200, "into": 40,
                 "outer:agg": 200, "outer:group": 200, "outer:join": 200, "outer:in": 150, "outer:order": 300, "outer:derived": 200, "outer:union": 150, "outer:twice": 100, "outer:cte": 200},
    "technique": "runtime monitoring: differential oracle over real executions: the rows and their values answered by an independent SQL engine (sqlite) for the same statement and data",
    "note": "Sizes: up to 40 recursion steps and a few hundred rows. Limits not generated: a recursive reference on the joined (not driving) side, recursive references inside subqueries, aggregates in the recursive member, SELECT * of a recursive member.",
}


def val(rng):
    return rng.choice([0, 1, 2, 3, 4, 5, 6, 7, -1, -3])


def series(rng):
    n = rng.choice([1, 1, 2, 3])
    names = rng.sample(["n", "m", "q", "val", "z_1"], n)
    anchor = [str(rng.choice([0, 1, 2, 5, -2])) for _ in names]
    steps = []
    lim = rng.randint(0, 25)
    steps.append("%s + %d" % (names[0], rng.choice([1, 1, 2, 3])))
    for j in range(1, n):
        o = names[rng.randint(0, j)]
        steps.append(rng.choice([o, "%s + %s" % (names[j], o), "%s * 2 - 1" % names[j] if lim < 12 else names[j], "%s %% 3" % names[0], "%s - %s" % (o, names[0]),
                                 "CASE WHEN %s > 3 THEN 1 ELSE %s END" % (names[0], names[j])]))
    steps = [x if x not in steps[:j] else x + " + 0" if x + " + 0" not in steps[:j] else x + " + 0 + 0" for j, x in enumerate(steps)]
    steps = [x + " + 1%d" % j if x in ("n", "m", "q", "val", "z_1") and x in names[:j] else x for j, x in enumerate(steps)]
    where = "%s < %d" % (names[0], lim)
    if rng.random() < 0.3:
        where += rng.choice([" AND %s <> 4" % names[-1], " AND %s IN (0, 1, 2, 3, 4, 5)" % names[0], " AND (%s > -5 OR %s = 1)" % (names[0], names[-1])])
    return names, anchor, steps, "r", where


def make(rng, i, tier):
    kind = rng.choice(["series", "graph", "closure", "rows_walk", "names"])
    k = rng.randint(1, 7)
    cyc = rng.random() < 0.4
    e, seen = [], set()
    for _ in range(rng.randint(0, 11)):
        p = rng.randint(0, k)
        c = rng.randint(0, k) if cyc else p + rng.randint(1, 3)
        if (p, c) in seen and not (cyc and rng.random() < 0.3):
            continue
        seen.add((p, c))
        e.append({"p": p, "c": c, "w": rng.choice([1, 2, 3, 5])})
    t = [{"id": j + 1, "a": val(rng), "b": rng.choice(["x", "y", "zz", None])} for j in range(rng.randint(1, 6))]
    tables = {"e": e or [{"p": 90, "c": 91, "w": 1}], "t": t}
    rec, union, c = "RECURSIVE ", rng.choice(["UNION ALL", "UNION ALL", "UNION"]), {}
    if kind == "series":
        names, anchor, steps, frm, where = series(rng)
        a = "SELECT " + ", ".join("%s AS %s" % x for x in zip(anchor, names))
        # unaliased expressions keep apart from the other names: duplicate output names are not supported
        s = "SELECT %s FROM r WHERE %s" % (", ".join("%s AS %s" % x if rng.random() < 0.8 or x[0] in names else x[0] for x in zip(steps, names)), where)
    elif kind == "graph":
        names = ["c", "d"] + (["tot"] if rng.random() < 0.5 else [])
        start = rng.choice(["p = %d" % rng.randint(0, 2), "w > 2", "p < 2", "c = %d" % k])
        a = "SELECT c, 1 AS d%s FROM e WHERE %s" % (", w AS tot" if len(names) > 2 else "", start)
        deep = rng.randint(1, 6) if cyc else 40
        extra = rng.choice(["", "", " AND x.w < 5", " AND x.c <> %d" % rng.randint(0, k)])
        s = "SELECT x.c, r.d + 1 AS d%s FROM r r INNER JOIN e x ON %s WHERE r.d < %d%s" % (
            rng.choice([", r.tot + x.w AS tot", ", x.w * r.d AS tot"]) if len(names) > 2 else "", rng.choice(["x.p = r.c", "r.c = x.p"]), min(deep, 5 if len(e) > 8 else 7), extra)
    elif kind == "closure":
        names, union = rng.choice([["c"], ["c", "o"]]), "UNION"
        if len(names) == 1:
            a = "SELECT %s AS c FROM e WHERE p = %d" % (rng.choice(["c", "p"]), rng.randint(0, k))
            s = "SELECT x.c FROM r r INNER JOIN e x ON x.p = r.c"
        else:
            a = "SELECT c, p AS o FROM e"
            s = "SELECT x.c, r.o FROM r r INNER JOIN e x ON x.p = r.c"
    elif kind == "rows_walk":
        names = ["id", "a", "d"]
        a = "SELECT id, a, 0 AS d FROM t" + rng.choice(["", " WHERE a > 0", " WHERE id < 4", " WHERE b = 'x'"])
        s = "SELECT id, a - %d AS a, d + 1 AS d FROM r WHERE a > %d" % (rng.choice([1, 2, 3]), rng.choice([0, 1, 2]))
    else:
        rec, union = rng.choice(["", "", "RECURSIVE "]), rng.choice(["UNION ALL", "UNION"])
        n = rng.choice([1, 2, 2, 3])
        src = rng.choice([["id", "a", "b"], ["b", "a", "id"], ["a", "id", "b"]])[:n]
        exprs = [rng.choice([x, x, "a + id" if x == "a" else x, "%s AS q%d" % (x, j)]) for j, x in enumerate(src)]
        names = rng.sample(["u", "v", "a", "id", "b", "`x y`"], n)
        a = "SELECT %s FROM t" % ", ".join(exprs) + rng.choice(["", " WHERE id > 1", " WHERE a <> 2"])
        s = None
        x = rng.random()
        if x < 0.3:
            s = "SELECT %s FROM t WHERE id < 3" % ", ".join(src)
        elif x < 0.5 and n > 1:
            a = "SELECT %s, count(*) AS k FROM t GROUP BY %s" % (", ".join(src[:-1]), ", ".join(src[:-1]))
            if rng.random() < 0.4:
                a += " HAVING k > 0"
        elif x < 0.6:
            a = "SELECT DISTINCT " + a[7:]
        rng.random() < 0.3 and s is None and "GROUP" not in a and None
    deep = kind != "names"
    third = ""
    if deep and rng.random() < 0.15 and kind != "closure":
        third = " %s SELECT %s" % (union, ", ".join("%d AS %s" % (rng.randint(-20, -10), n) for n in names)) if kind == "series" else ""
    body = a + third + (" %s %s" % (union, s) if s else "")
    clist = ""
    if kind == "names" or rng.random() < 0.2:
        if kind != "names":
            new = rng.sample(["n1", "n2", "n3"], len(names))
            # the recursive member names the new columns
            body = a + third + " " + union + " " + rewrite(s, names, new, kind)
            names = new
        clist = "(%s)" % ", ".join(names)
    o = rng.choice(["plain", "plain", "agg", "group", "join", "in", "order", "order", "derived", "union", "twice", "cte", "derived_list"])
    if kind == "names" and not rec and rng.random() < 0.4:
        o = "derived_list"
    elif o == "derived_list":
        o = "plain"
    f, g = names[0], rng.choice(names)
    cols = ", ".join(names)
    with_ = "WITH %sr%s AS (%s) " % (rec, clist, body)
    w = rng.choice(["", "", " WHERE %s IS NOT NULL" % g])
    ordered, ref = False, None
    if o == "plain":
        q = with_ + "SELECT %s FROM r%s" % (cols, w)
    elif o == "agg":
        q = with_ + "SELECT count(*) AS n0, max(%s) AS m1, min(%s) AS m2, count(DISTINCT %s) AS n3 FROM r" % (f, g, g)
    elif o == "group":
        q = with_ + "SELECT %s AS g0, count(*) AS n0 FROM r GROUP BY %s" % (g, g)
    elif o == "join":
        q = with_ + "SELECT y.id AS id0, z.%s AS f0 FROM t y INNER JOIN r z ON y.id = z.%s" % (g, f)
    elif o == "in":
        q = with_ + "SELECT id FROM t WHERE id IN (SELECT %s FROM r WHERE %s IS NOT NULL)" % (f, f)
    elif o == "order":
        q = with_ + "SELECT %s FROM r ORDER BY %s" % (cols, ", ".join("%s %s" % (x, rng.choice(["ASC", "DESC"])) for x in names))
        if rng.random() < 0.5:
            q += " LIMIT %d" % rng.randint(1, 6)
        ordered = True
    elif o == "derived":
        q = with_ + "SELECT w.%s AS f0, w.k0 FROM (SELECT %s, 5 AS k0 FROM r%s) w" % (f, f, w)
    elif o == "derived_list":
        ref = with_ + "SELECT %s AS f0, %s AS g0 FROM r" % (f, g)
        q = rng.choice(["SELECT r.%s AS f0, r.%s AS g0 FROM (%s) %sr%s", "SELECT %s AS f0, %s AS g0 FROM (%s) %sr%s"]) % (f, g, body, rng.choice(["", "AS "]), clist)
        o = "derived"
    elif o == "union":
        q = with_ + "SELECT %s AS u0 FROM r UNION ALL SELECT id AS u0 FROM t" % f
    elif o == "twice":
        q = with_ + "SELECT z.%s AS f0, y.%s AS g0 FROM r z INNER JOIN r y ON z.%s = y.%s" % (f, g, f, f)
    else:
        q = with_ + ", s2 AS (SELECT %s AS h, %s AS h2 FROM r%s) SELECT h, h2 FROM s2" % (f, g, w)
    st = {}
    if rng.random() < 0.3:
        st = rng.choice([{"@batch": rng.randint(1, 4)}, {"@streaming": 1}, {"@join_batch": 1}, {"@insert_batch": rng.randint(1, 3)}, {"@limit": 100000}, {"@verbose": 0, "@batch": 2}])
    how = rng.choice(["query"] * 8 + ["insert", "into"])
    if how == "into" and o != "agg":
        how = "insert"
    return {"kind": kind, "q": q, "ref": ref or q, "outer": o, "ordered": ordered, "tables": tables, "set": st, "how": how, "cyc": cyc and kind == "closure", "list": bool(clist), "anchor": a, "rec": deep}


def rewrite(s, names, new, kind):
    """The recursive member with its references to r's columns renamed."""
    import re
    m = dict(zip(names, new))
    if kind in ("graph", "closure"):
        return re.sub(r"\br\.(\w+)\b", lambda x: "r." + m.get(x.group(1), x.group(1)), s)
    s = re.sub(r" AS \w+", "", s)
    return re.sub(r"\b([a-z_]\w*)\b", lambda x: m.get(x.group(1), x.group(1)), s)


def reference(c):
    db = sqlite3.connect(":memory:")
    try:
        for n, rows in c["tables"].items():
            cols = list(rows[0])
            db.execute("CREATE TABLE %s (%s)" % (n, ", ".join(cols)))
            db.executemany("INSERT INTO %s VALUES (%s)" % (n, ", ".join("?" * len(cols))), [tuple(r[x] for x in cols) for r in rows])
        db.set_progress_handler(lambda: 1, 3000000)
        cur = db.execute(c["ref"])
        return [d[0] for d in cur.description], cur.fetchmany(4000)
    finally:
        db.close()


def run(c, obs):
    names, rows = reference(c)
    if len(rows) >= 1500:
        return obs.hit("too_large")
    want = [dict(zip(names, r)) for r in rows]
    if c["outer"] == "agg" and want and want[0]["n0"] == 0:
        want = []
    e = eng.engine(c["tables"])
    for k, v in c["set"].items():
        e.set_variable(k, v)
    detail = {"sql": c["q"], "tables": c["tables"], "settings": c["set"]}
    if c["how"] == "insert":
        head, sep, tail = c["q"].rpartition(") SELECT ") if c["q"].startswith("WITH") and c["outer"] in ("plain", "agg") else ("", "", "")
        sql = head + ") INSERT INTO keep SELECT " + tail if sep else "INSERT INTO keep " + c["q"]
        got = eng.attempt(e.execute, sql)
        detail["sql"] = sql
        if not isinstance(got, eng.Raised):
            got = eng.attempt(e.pop_memory_datas, "keep") if want else []
            got = got or []
        obs.hit("insert")
    elif c["how"] == "into" and want:
        sql = c["q"].replace("count(*) AS n0, ", "count(*) AS n0 INTO @c30 FROM r -- ").split(" -- ")[0]
        detail["sql"] = sql
        got = eng.attempt(e.execute, sql)
        if not isinstance(got, eng.Raised):
            got = [dict(want[0], n0=e.get_variable("@c30"))]
        obs.hit("into")
    else:
        got = eng.attempt(eng.query, e, c["q"])
    if isinstance(got, eng.Raised) or not eng.same_rows(got, want, c["ordered"]):
        return obs.fail(c["kind"], "answer %r, an independent SQL engine gives %r" % (got if isinstance(got, eng.Raised) else got[:8], want[:8]), **detail)
    obs.hit(c["kind"])
    obs.hit("outer:" + c["outer"])
    obs.hit("rows", len(want))
    obs.hit("settings", bool(c["set"]))
    obs.hit("cyclic", c["cyc"])
    deep = False
    if c["rec"]:
        deep = len(want) > 1
        obs.hit("deep", deep)
    if deep or c["list"]:
        obs.nontrivial(c["q"], repr(c["tables"]))
        obs.sample("%s => %d rows" % (c["q"][:200], len(want)))
