"""C09: ORDER BY / LIMIT / OFFSET: stable permutation and exact slice of the unordered result."""
from vlib import eng, gen, sqlmodel as M

META = {"id": "C09", "sizes": {"quick": 9000, "thorough": 120000},
        "technique": "online comparison of each ordered/limited execution with the observed unordered execution of the same query (stable sort and slice), whose rows are themselves checked against a reference evaluator",
        "rule": "plain, filtered, star, joined, grouped (+HAVING), DISTINCT, UNION, window, exploding (yield_array) and derived-table queries x 1-4 ORDER BY keys (result aliases incl. ones shadowing a source column, unselected source columns, qualified columns, aggregate expressions; ASC/DESC; NULL keys and ties) x LIMIT 0..beyond, OFFSET 0..beyond, LIMIT m,n; non-trivial = the order changed the sequence or the slice dropped rows; distinct by (SQL, result)",
        "required": {"queries": 3000, "reordered": 1000, "ties": 500, "null_keys": 500, "sliced": 1000, "limit0": 50, "beyond": 200, "source_key": 300, "shadow": 100,
                     "plain": 200, "star": 100, "join": 200, "group": 200, "distinct": 200, "union": 150, "window": 150, "explode": 150, "derived": 150}}
C = lambda n, a=None: ("col", a, n)


def tab(rng, n, nulls):
    rows = []
    for i in range(n):
        r = {"id": i + 1, "k": rng.randint(0, 3), "n": rng.choice([0, 1, 2, -1, 2.5, 10]), "s": rng.choice(["a", "b", "c", "A", "", "10", "é"]), "t": rng.choice(["x", "y"])}
        for c in "knst":
            if rng.random() < nulls:
                r[c] = None
        rows.append(r)
    rng.shuffle(rows)
    return rows


ALL = ["id", "k", "n", "s", "t"]


def make(rng, i, tier):
    nulls = rng.choice([0, 0.25])
    tables = {"t1": tab(rng, rng.choice([0, 1, 3, 6, 12, 25]), nulls), "t2": tab(rng, rng.choice([0, 2, 5, 9]), nulls)}
    kind = rng.choice(["plain", "plain", "star", "join", "join", "group", "group", "distinct", "distinct", "union", "window", "explode", "derived"])
    a = rng.choice([None, "a"])
    q = {"from_": (("table", "t1"), a)}
    ex = gen.Ex(rng, [(a, "id", "i"), (a, "k", "i"), (a, "n", "i"), (a, "s", "s"), (a, "t", "s")], strs=["a", "b", "x", ""])
    src, shadow = [], False       # expressions usable as source-only keys
    if kind in ("plain", "explode", "distinct", "window"):
        sel = []
        for c in rng.sample(ALL, rng.randint(1, 4)):
            sel.append((C(c, a), c if rng.random() < 0.7 else "x" + c))
        if rng.random() < 0.5:
            e = ex.numeric(1) if rng.random() < 0.6 else ("func", "upper", [C("s", a)])
            name = "e"
            free = [c for c in ALL if c not in [n for _, n in sel]]
            if rng.random() < 0.4 and free and kind not in ("distinct", "window"):
                name, shadow = rng.choice(free), True
            sel.append((e, name))
        q["select"] = sel
        if kind in ("plain", "explode", "window"):
            src = [C(c, a) for c in ALL if not any(n == c for _, n in sel) or a]
        if kind == "distinct":
            q["distinct"] = True
        if kind == "window":
            sel.append((("win", "row_number", [], [C("t", a)] if rng.random() < 0.6 else [], [(C("id", a), rng.random() < 0.5)]), "w"))
    elif kind == "star":
        q["select"] = "*"
        src = [C(c, rng.choice([a, None])) for c in ALL]
    elif kind == "join":
        a = "a"
        q["from_"] = (("table", "t1"), "a")
        q["joins"] = [(rng.choice(["LEFT JOIN", "INNER JOIN"]), ("table", "t2"), "b", ("bin", "=", C(*rng.choice([("k", "b"), ("id", "b")])), C("id", "a")))]
        cols = [(al, c) for al in "ab" for c in ALL]
        sel, names = [], set()
        for al, c in rng.sample(cols, rng.randint(1, 5)):
            n = c if rng.random() < 0.5 else al + "_" + c
            if n not in names:
                names.add(n)
                sel.append((C(c, al), n))
        q["select"] = sel
        src = [C(c, "a") for c in ALL]
        shadow = any(n in ALL and (e[1] == "b" or e[2] != n) for e, n in sel)
    elif kind == "group":
        keys = [C(c, a) for c in rng.sample(["k", "t", "s"], rng.randint(1, 2))]
        q["group"] = keys
        sel = [(k, k[2] if rng.random() < 0.6 else "g" + k[2]) for k in keys]
        for z in range(rng.randint(1, 3)):
            f = rng.choice(["count", "sum", "max", "min"])
            sel.append((("agg", f, None if f == "count" else C(rng.choice(["id", "n"]), a), False), "x%d" % z))
        q["select"] = sel
        if rng.random() < 0.3:
            q["having"] = ("bin", rng.choice([">", "<="]), C(sel[-1][1]), ("lit", rng.randint(0, 4)))
    elif kind == "union":
        ops = []
        ncol = rng.randint(1, 3)
        cs = rng.sample(ALL, ncol)
        for z in range(rng.choice([2, 2, 3])):
            b = {"select": [(C(c), "u" + c) for c in cs], "from_": (("table", rng.choice(["t1", "t2"])), None)}
            if rng.random() < 0.4:
                b["where"] = ("bin", ">", C("id"), ("lit", rng.randint(0, 6)))
            ops.append((rng.choice(["UNION", "UNION ALL"]), b))
        q = {"setop": ops, "select": ops[0][1]["select"]}
    else:
        inner = {"select": [(C(c), c) for c in ALL], "from_": (("table", "t1"), None), "order": [(C("id"), rng.random() < 0.5)], "limit": rng.randint(0, 12), "offset": rng.choice([None, 1])}
        q["from_"] = (("sub", inner), "z")
        q["select"] = [(C(c), c) for c in rng.sample(ALL, rng.randint(2, 5))]
        if rng.random() < 0.3:
            q["select"].append((ex.numeric(0) if a is None else C("id"), "e"))
    if kind not in ("union", "derived", "group") and rng.random() < 0.3:
        q["where"] = ("bin", rng.choice([">", "<", "!="]), C("id", a), ("lit", rng.randint(0, 9)))
    order, skeys = [], []
    r = rng.random()
    if r < 0.9:
        n = rng.choice([1, 1, 2, 2, 3, 4])
        if src and rng.random() < 0.4:
            for e in rng.sample(src, min(n, len(src))):
                order.append((e, rng.random() < 0.5))
                skeys.append(e)
        elif q["select"] != "*":
            picks = rng.sample(q["select"], min(n, len(q["select"])))
            for e, nm in picks:
                k = C(nm)
                if kind == "group" and e[0] == "agg" and rng.random() < 0.3:
                    k = e
                elif kind == "join" and rng.random() < 0.5:
                    k = e                      # written as the qualified column
                order.append((k, rng.random() < 0.5))
                skeys.append(C(nm))
    lim = rng.choice([None, None, 0, 1, 2, 3, 5, 8, 100])
    off = rng.choice([None, None, 0, 1, 2, 4, 50]) if lim is not None or (kind != "group" and rng.random() < 0.3) else None
    comma = lim is not None and off is not None and rng.random() < 0.3
    return {"tables": tables, "q": q, "kind": kind, "order": order, "skeys": skeys, "limit": lim, "offset": off, "comma": comma,
            "shadow": shadow and any(k[0] == "col" and k[1] is None for k, _ in order)}


def text(q, case, order, limit, extra):
    q = dict(q)
    if extra and q["select"] != "*":
        q["select"] = q["select"] + [(e, "zk%d" % n) for n, e in enumerate(case["skeys"])]
    if order:
        q["order"] = case["order"]
    if limit and not case["comma"]:
        q["limit"], q["offset"] = case["limit"], case["offset"]
    s = M.qsql(q)
    if limit and case["comma"]:
        s += " LIMIT %d, %d" % (case["offset"], case["limit"])
    if case["kind"] == "explode":
        s = s.replace(" FROM ", ", yield_array(json_array(7, 8)) AS yy FROM ", 1)
    return s


def run(case, obs):
    q, tables, kind = case["q"], case["tables"], case["kind"]
    source = any(not (k[0] == "col" and k[1] is None and any(n == k[2] for _, n in ([] if q["select"] == "*" else q["select"]))) for k in case["skeys"])
    extra = source and q["select"] != "*"
    e = eng.engine(tables)
    U = eng.attempt(eng.query, e, text(q, case, False, False, extra))
    sql = text(q, case, True, False, False)
    O = eng.attempt(eng.query, e, sql)
    sqll = text(q, case, True, True, False)
    L = eng.attempt(eng.query, e, sqll)
    obs.hit("queries", 3)
    obs.hit(kind)
    for x, s in ((U, "unordered"), (O, sql), (L, sqll)):
        if isinstance(x, eng.Raised):
            return obs.fail("order", "query failed", sql=s, got=x, unordered=text(q, case, False, False, extra), tables=tables)
    want = M.Model(tables).query(q)
    base = [{c: v for c, v in r.items() if c[:2] != "zk" and c != "yy"} for r in U]
    if kind == "explode":
        want = [r for r in want for _ in (7, 8)]
    if not eng.same_rows(base, want):
        return obs.fail("order", "unordered rows differ", sql=text(q, case, False, False, extra), got=U, want=want, tables=tables)
    rows = list(range(len(U)))
    keyvals = [[(r["zk%d" % n] if extra else r[k[2]]) for n, k in enumerate(case["skeys"])] for r in U]
    for n in range(len(case["order"]) - 1, -1, -1):
        rows.sort(key=lambda x: M.nullkey(keyvals[x][n]), reverse=case["order"][n][1])
    strip = [{c: v for c, v in r.items() if c[:2] != "zk"} for r in U]
    expect = [strip[x] for x in rows]
    if not eng.same_rows(O, expect, True):
        return obs.fail("order", "not the stable sort of the unordered result", sql=sql, got=O, want=expect, unordered=strip, tables=tables)
    lim, off = case["limit"], case["offset"] or 0
    sl = expect[off:] if lim is None else expect[off: off + lim]
    if not eng.same_rows(L, sl, True):
        return obs.fail("order", "not the requested slice", sql=sqll, got=L, want=sl, ordered=expect, tables=tables)
    ch = rows != list(range(len(U)))
    obs.hit("reordered", ch)
    obs.hit("ties", len(set(map(eng.norm, keyvals))) < len(U) and bool(case["order"]))
    obs.hit("null_keys", any(None in k for k in keyvals))
    obs.hit("sliced", len(sl) < len(expect))
    obs.hit("limit0", lim == 0)
    obs.hit("beyond", lim is not None and off + lim > len(U))
    obs.hit("source_key", extra)
    obs.hit("shadow", case["shadow"])
    if ch or len(sl) < len(expect):
        obs.nontrivial(sqll, L)
        obs.sample({"sql": sqll, "rows": len(L)})
