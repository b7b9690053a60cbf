"""C11: window functions over partitions, against their definitions."""
import itertools
import json
from vlib import eng, gen, sqlmodel as M

META = {"id": "C11", "sizes": {"quick": 9000, "thorough": 120000}, "probes": True,
        "rule": "SELECTs with 1-4 window expressions (ranking, distribution, lag/lead/first/last/nth, running and whole-partition aggregates, COUNT DISTINCT) with 0-2 partition keys and 0-3 ascending/descending order keys (columns and expressions, ties and NULLs), over plain, filtered, joined and derived tables of 0-60 rows; nested in expressions beside columns; named windows; outer ORDER BY/LIMIT; every query also with the source rows permuted when the window order is total; non-trivial = >=2 partitions with one of >=3 rows; distinct by (SQL, result)",
        "required": {"queries": 1000, "rows": 10000, "ties": 300, "null_order": 200, "null_partition": 200, "multi_key": 300, "desc": 300, "named": 50, "nested": 300,
                     "joined": 100, "derived": 100, "permuted": 200, "row_number": 100, "rank": 50, "dense_rank": 50, "percent_rank": 20, "cume_dist": 20, "ntile": 20,
                     "lag": 50, "lead": 50, "first_value": 50, "last_value": 50, "nth_value": 50, "sum": 50, "count": 50, "countd": 20, "avg": 50, "min": 50, "max": 50, "group_concat": 20,
                     "group_array": 10, "bits": 20, "json_arrayagg": 10}}
COLS = [(None, "g", "i"), (None, "h", "s"), (None, "n", "i"), (None, "f", "f"), (None, "s", "s"), (None, "id", "i")]
PINNED = {"rank": "rank-ties", "dense_rank": "rank-ties", "percent_rank": "percent-rank", "cume_dist": "cume-dist", "ntile": "ntile-buckets"}
C = lambda n, a=None: ("col", a, n)


def rows_of(rng):
    n = rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 20, 40, 60])
    nulls = rng.choice([0, 0.2, 0.2, 0.5])
    out = []
    for i in range(n):
        r = {"id": i + 1, "g": rng.randint(0, 3), "h": rng.choice(["a", "b", "c"]), "n": rng.randint(0, 6) if rng.random() < 0.7 else gen.ival(rng),
             "f": gen.fval(rng), "s": rng.choice(gen.STRS)}
        for c in "ghnfs":
            if rng.random() < nulls:
                r[c] = None
        out.append(r)
    rng.shuffle(out)
    return out


def part(rng, a):
    k = rng.random()
    if k < 0.4:
        return C("g", a)
    if k < 0.7:
        return C("h", a)
    if k < 0.8:
        return ("bin", "%", C("id", a), ("lit", rng.randint(2, 4)))
    if k < 0.9:
        return ("ifnull", C("g", a), ("lit", -1))
    return ("if", ("bin", ">", C("n", a), ("lit", 2)), ("lit", "hi"), ("lit", "lo"))


def okey(rng, a):
    k = rng.random()
    d = rng.random() < 0.45
    if k < 0.25:
        return C("n", a), d
    if k < 0.45:
        return C("id", a), d
    if k < 0.6:
        return C("f", a), d
    if k < 0.75:
        return C("h", a), d
    if k < 0.8:
        return C("s", a), d
    if k < 0.9:
        return ("bin", rng.choice("+-"), C("n", a), ("lit", rng.randint(0, 4))), d
    return ("bin", "%", C("id", a), ("lit", 3)), d


VALUE = ["lag", "lead", "first_value", "last_value", "nth_value"]
RANKS = ["row_number", "row_number", "rank", "dense_rank", "percent_rank", "cume_dist", "ntile"]
AGGS = ["sum", "sum", "count", "avg", "min", "max"]


def winfn(rng, a, ex, part_by, order, num):
    k = rng.random()
    col = ex.col("if") if num else ex.col("ifs")
    if k < 0.3:
        f = rng.choice(RANKS)
        return ("win", f, [("lit", rng.randint(1, 5))] if f == "ntile" else [], part_by, order), "i"
    t = "f" if num else "?"
    if k < 0.55:
        f = rng.choice(VALUE)
        if f in ("lag", "lead"):
            args = [col] + ([("lit", rng.randint(1, 3))] if rng.random() < 0.6 else [])
            if len(args) == 2 and rng.random() < 0.4:
                args.append(("lit", rng.choice([0, -1, 7])) if num or rng.random() < 0.5 else ("lit", "none"))
        elif f == "nth_value":
            args = [col, ("lit", rng.randint(1, 4))]
        else:
            args = [col]
        return ("win", f, args, part_by, order), t
    if k < 0.63:
        return ("win", "count", ["*"], part_by, order), "i"
    if k < 0.69:
        return ("win", "count", [ex.col("ifs")], part_by, order, "distinct"), "i"
    if k < 0.9 or num:
        x = ex.col("if") if rng.random() < 0.7 else ("bin", rng.choice("+*-"), ex.col("if"), ("lit", rng.randint(1, 3)))
        return ("win", rng.choice(AGGS), [x], part_by, order), "f"
    f = rng.choice(["group_concat", "group_array", "group_bit_or", "group_bit_xor", "group_bit_and", "json_arrayagg", "min", "max"])
    if f in ("min", "max"):
        return ("win", f, [C("s", a)], part_by, order), "s"
    c = C("n", a) if f != "group_concat" else C(rng.choice("hsn"), a)
    return ("win", f, [c], part_by, order), "J"


def make(rng, i, tier):
    tables = {"t1": rows_of(rng)}
    q = {"from_": (("table", "t1"), None)}
    a, shape = None, rng.random()
    if shape < 0.15:
        a = "a"
        tables["t2"] = [{"id": 100 + x, "g": x, "w": rng.choice([None, 1, 2, "x"])} for x in range(rng.randint(0, 4))]
        q["from_"] = (("table", "t1"), "a")
        q["joins"] = [(rng.choice(["LEFT JOIN", "INNER JOIN"]), ("table", "t2"), "b", ("bin", "=", C("g", "b"), C("id", "a")))]
    elif shape < 0.3:
        q["from_"] = (("sub", {"select": [(C(c), c) for _, c, _ in COLS], "from_": (("table", "t1"), None), "where": ("bin", ">", C("id"), ("lit", rng.randint(0, 6)))}), "a")
        a = rng.choice([None, "a"])
    ex = gen.Ex(rng, [(a, n, t) for _, n, t in COLS], funcs=False)
    named = []
    sorted_source = rng.random() < 0.25         # an outer ORDER BY may decide the order of tied rows
    if rng.random() < 0.1:
        named = [part(rng, a)], [okey(rng, a)] + ([(C("id", a), False)] if sorted_source else [])
        q["windows"] = [("w1", ("win", "", [], named[0], named[1]))]

    def spec():
        if named and rng.random() < 0.7:
            return named
        p = [part(rng, a) for _ in range(rng.choice([0, 1, 1, 1, 2]))]
        o = [okey(rng, a) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3]))]
        if rng.random() < 0.35 or sorted_source:
            o.append((C("id", a), rng.random() < 0.5))
        return p, o

    def win(num):
        p, o = spec()
        while True:
            w, t = winfn(rng, a, ex, p, o, num)
            if named and p is named[0] and len(w) == 5:
                w += ("named:w1",)
            if o or w[1] in ("row_number", "sum", "count", "avg", "min", "max", "group_concat", "group_array", "group_bit_or", "group_bit_and", "group_bit_xor", "json_arrayagg"):
                return w, t
    sel = [(C("id", a), "id")]
    if rng.random() < 0.5:
        sel.append((ex.col("ifs"), "c0"))
    for n in range(rng.randint(1, 4)):
        k = rng.random()
        if k < 0.62:
            e = win(False)[0]
        elif k < 0.72:
            e = ("bin", rng.choice("+-*"), win(True)[0], win(True)[0])
        elif k < 0.84:
            e = ("bin", rng.choice("+-*/"), rng.choice([C("n", a), C("f", a), C("id", a)]), win(True)[0])
        elif k < 0.9:
            e = ("if", ("bin", rng.choice([">", "<=", "="]), win(True)[0], ("lit", rng.randint(0, 4))), ("lit", "x"), ("lit", "y"))
        elif k < 0.95:
            e = ("ifnull", win(True)[0], ("lit", -1))
        else:
            e = ("case", None, [(("bin", "<", win(True)[0], ("lit", 3)), ("lit", 1))], win(True)[0])
        sel.append((e, "x%d" % n))
    if rng.random() < 0.3:
        rng.shuffle(sel)
    q["select"] = sel
    if rng.random() < 0.25:
        q["where"] = ("bin", rng.choice([">", "<=", "!="]), C("id", a), ("lit", rng.randint(0, 12)))
    if sorted_source:
        q["order"] = [(C("id"), rng.random() < 0.5)]
        if rng.random() < 0.6:
            q["limit"] = rng.randint(0, 12)
            if rng.random() < 0.4:
                q["offset"] = rng.randint(0, 5)
    perm = list(tables["t1"])
    rng.shuffle(perm)
    return {"tables": tables, "q": q, "perm": perm}


def wins(e):
    if isinstance(e, tuple):
        if e and e[0] == "win":
            yield e
            return
        for x in e:
            yield from wins(x)
    elif isinstance(e, list):
        for x in e:
            yield from wins(x)


def fix(rows, q):
    js = {n for e, n in q["select"] if e[0] == "win" and e[1].startswith("json")}
    out = []
    for r in rows:
        r = dict(r)
        for n in js:
            if isinstance(r.get(n), str):
                r[n] = json.loads(r[n])
        out.append(r)
    return out


def total(w):
    return any(x[0] == "col" and x[2] == "id" for x, _ in w[4])


def run(case, obs):
    q, tables = case["q"], case["tables"]
    sql = M.qsql(q)
    ws = [w for e, _ in q["select"] for w in wins(e)]
    mech = sorted({PINNED[w[1]] for w in ws if w[1] in PINNED})
    total_order = all(total(w) or (not w[4] and w[1] in ("sum", "count", "avg", "min", "max") or w[1] == "count" and not w[4]) for w in ws)
    ordered = bool(q.get("order"))
    want = None
    for tag, t in (("in order", tables["t1"]), ("permuted", case["perm"])):
        if tag == "permuted" and not total_order:
            continue
        tb = dict(tables, t1=t)
        got = eng.attempt(eng.query, eng.engine(tb), sql)
        obs.hit("queries")
        obs.hit("permuted", tag == "permuted")
        m = M.Model(tb)
        want = m.query(q)
        g = got if isinstance(got, eng.Raised) else fix(got, q)
        if not isinstance(got, eng.Raised) and eng.same_rows(g, want, ordered):
            continue
        known = False
        for size in range(1, len(mech) + 1):
            for some in itertools.combinations(mech, size):
                m.pinned_windows = tuple(f for f, x in PINNED.items() if x in some)
                if not isinstance(got, eng.Raised) and eng.same_rows(g, m.query(q), ordered):
                    known = True
                    for x in some:
                        obs.finding(x, sql)
                    break
            if known:
                break
        if not known:
            m.pinned_windows = ()
            obs.fail("window", "window result differs (%s)" % tag, sql=sql, got=got, want=want, t1=t[:30], t2=tables.get("t2"))
            return
    obs.hit("rows", len(want))
    byid = {}
    src = tables["t1"]
    for w in ws:
        obs.hit("countd" if w[5:] == ("distinct",) else "bits" if "bit" in w[1] else w[1])
        obs.hit("multi_key", len(w[4]) > 1)
        obs.hit("desc", any(d for _, d in w[4]))
        if w[4] and src:
            m = M.Model(tables)
            al = q["from_"][1] or "t1"
            ks = [tuple(eng.norm(m.ev(x, {al: r, "b": None})) for x in list(w[3]) + [o for o, _ in w[4]]) for r in src]
            obs.hit("ties", len(set(ks)) < len(ks))
            obs.hit("null_order", any(None in k[len(w[3]):] for k in ks))
            obs.hit("null_partition", any(None in k[: len(w[3])] for k in ks))
            ps = [k[: len(w[3])] for k in ks]
            byid[id(w)] = len(set(ps)) > 1 and max(ps.count(p) for p in set(ps)) >= 3
    obs.hit("nested", sum(1 for e, _ in q["select"] if e[0] != "win" and any(True for _ in wins(e))))
    obs.hit("joined", bool(q.get("joins")))
    obs.hit("derived", q["from_"][0][0] == "sub")
    obs.hit("named", "OVER w1" in sql)
    if any(byid.values()) and want:
        obs.nontrivial(sql, want)
        obs.sample({"sql": sql, "rows": len(want)})


def probes(obs):
    t = {"t1": [{"id": i + 1, "n": v} for i, v in enumerate([5, 8, 8, 9, 9, 10])]}

    def col(expr):
        return [r["x"] for r in eng.query(eng.engine(t), "SELECT `id`, %s AS `x` FROM `t1`" % expr)]
    for mech, expr, ideal, pinned in (
            ("rank-ties", "rank() over (order by `n`)", [1, 2, 2, 4, 4, 6], [1, 2, 3, 4, 5, 6]),
            ("percent-rank", "percent_rank() over (order by `id`)", [p / 5 for p in range(6)], [0] + [(p + 1) - 1 / (p + 1) - 1 for p in range(1, 6)]),
            ("cume-dist", "cume_dist() over (order by `id`)", [(p + 1) / 6 for p in range(6)], [p + 1 / 6 + 1 for p in range(6)]),
            ("ntile-buckets", "ntile(4) over (order by `id`)", [1, 1, 2, 2, 3, 4], [1, 1, 2, 3, 3, 4])):
        got = col(expr)
        if [eng.norm(x) for x in got] == [eng.norm(x) for x in ideal]:
            continue
        if [eng.norm(x) for x in got] == [eng.norm(x) for x in pinned]:
            obs.finding(mech, "%s over %r gives %r" % (expr, [r["n"] for r in t["t1"]], got))
        else:
            obs.fail("window", "window probe differs", sql=expr, got=got, want=ideal)
