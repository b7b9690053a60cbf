"""C07: grouping, aggregates and HAVING against exact per-group evaluation."""
import json
from vlib import eng, gen, sqlmodel as M

META = {"id": "C07", "sizes": {"quick": 16000, "thorough": 200000},
        "rule": "grouped queries (0-3 column/expression keys) over 0-60 rows with NULL keys and values, optionally over a join or a subquery; 1-6 of COUNT(*)/COUNT/COUNT DISTINCT/SUM/AVG/MIN/MAX/GROUP_CONCAT/GROUP_ARRAY/GROUP_UNIQ_ARRAY/GROUP_BIT_*/JSON_ARRAYAGG/JSON_OBJECTAGG, nested in expressions; HAVING over result columns; every query also on permuted input; non-trivial = >=2 groups with a group of >=2 rows; distinct by (SQL, result)",
        "required": {"queries": 1000, "groups": 5000, "null_key": 200, "null_values": 500, "having_kept": 500, "having_dropped": 500, "permuted": 1000,
                     "count": 100, "countd": 100, "sum": 100, "avg": 100, "min": 100, "max": 100, "group_concat": 50, "group_array": 50, "group_uniq_array": 50,
                     "group_bit_and": 50, "group_bit_or": 50, "group_bit_xor": 50, "json_arrayagg": 50, "json_objectagg": 50, "nested": 30, "alias": 300, "global": 200}}
COLS = [(None, "g", "i"), (None, "h", "s"), (None, "n", "i"), (None, "f", "f"), (None, "s", "s"), (None, "id", "i"), (None, "d", "d")]
C = lambda n, a=None: ("col", a, n)


def rows_of(rng):
    n = rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 20, 40, 60])
    nulls = rng.choice([0, 0.2, 0.2, 0.6])
    out = []
    for i in range(n):
        r = {"id": i + 1, "g": rng.randint(0, 3), "h": rng.choice(["a", "b", "c"]), "n": gen.ival(rng), "f": gen.fval(rng), "s": rng.choice(gen.STRS), "d": rng.choice(["1", "2", "-3", "10", "2.5", "0", "7", "-0.25"])}
        for c in "ghnfsd":
            if rng.random() < nulls:
                r[c] = None
        out.append(r)
    rng.shuffle(out)
    return out


def key(rng, a):
    k = rng.random()
    if k < 0.35:
        return C("g", a)
    if k < 0.6:
        return C("h", a)
    if k < 0.68:
        return ("bin", "%", C("id", a), ("lit", rng.randint(2, 4)))
    if k < 0.75:
        return ("func", "upper", [C("h", a)])
    if k < 0.83:
        return ("if", ("bin", ">", C("n", a), ("lit", 2)), ("lit", "hi"), ("lit", "lo"))
    if k < 0.9:
        return ("ifnull", C("g", a), ("lit", -1))
    if k < 0.95:
        return ("bin", "+", C("g", a), ("lit", 1))
    return C("s", a)


NUMAGG = ["sum", "avg", "min", "max", "count"]


def agg(rng, ex, a, top):
    """(expression, type)"""
    k = rng.random()
    if k < 0.12:
        return ("agg", "count", None, False), "i"
    if k < 0.2:
        return ("agg", "count", ex.col("ifs"), True), "i"
    if k < 0.62 or not top:
        if rng.random() < 0.08:
            return ("agg", rng.choice(["sum", "avg"]), ("bin", "*", C("d", a), ("lit", 2)) if rng.random() < 0.2 else C("d", a), False), "f"
        f = rng.choice(NUMAGG)
        if rng.random() < 0.7:
            x = ex.col("if")
        elif rng.random() < 0.5:
            x = ("bin", rng.choice("+-*"), ex.col("if"), ex.lit("i"))
        else:
            x = ("if", ("bin", ">", C("id", a), ("lit", 4)), ex.col("if"), ("lit", None) if rng.random() < 0.5 else ("lit", 0))
        return ("agg", f, x, False), "f"
    if k < 0.7:
        return ("agg", rng.choice(["min", "max"]), ex.col("s"), False), "s"
    if k < 0.77:
        return ("agg", "group_concat", rng.choice([C("s", a), C("n", a), C("h", a)]), False), "s"
    if k < 0.88:
        return ("agg", rng.choice(["group_bit_and", "group_bit_or", "group_bit_xor"]), rng.choice([C("n", a), C("id", a), C("f", a)]), False), "i"
    if k < 0.94:
        return ("agg", rng.choice(["group_array", "group_uniq_array"]), rng.choice([C("n", a), C("s", a)]), False), "l"
    if rng.random() < 0.5:
        return ("agg", "json_arrayagg", rng.choice([C("n", a), C("s", a)]), False), "J"
    return ("agg", "json_objectagg", [rng.choice([C("id", a), ("ifnull", C("s", a), ("lit", "none"))]), C("n", a)], False), "J"


def nested(rng, ex, a):
    x, t = agg(rng, ex, a, False)
    y, _ = agg(rng, ex, a, False)
    k = rng.random()
    if k < 0.35:
        return ("bin", rng.choice(["+", "-", "*", "/"]), x, y), "f"
    if k < 0.5:
        return ("bin", rng.choice(["+", "*"]), x, ("lit", 2)), "f"
    if k < 0.65:
        return ("if", ("bin", ">", x, ("lit", 1)), ("lit", "many"), ("lit", "few")), "s"
    if k < 0.8:
        return ("ifnull", x, ("lit", -1)), "f"
    if k < 0.9:
        return ("case", None, [(("bin", "<", x, y), x)], y), "f"
    return ("func", "concat", [("ifnull", ("agg", "min", C("s", a), False), ("lit", "-")), ("lit", "/"), ("ifnull", ("agg", "max", C("h", a), False), ("lit", "."))]), "s"


def make(rng, i, tier):
    tables = {"t1": rows_of(rng)}
    q = {"from_": (("table", "t1"), None)}
    a = None
    shape = rng.random()
    if shape < 0.12:
        a = "a"
        tables["t2"] = [{"id": 100 + x, "g": x, "w": rng.choice([None, 1, 2, "x"])} for x in range(rng.randint(0, 4))]
        q["from_"] = (("table", "t1"), "a")
        q["joins"] = [(rng.choice(["LEFT JOIN", "INNER JOIN"]), ("table", "t2"), "b", ("bin", "=", C("g", "b"), C("id", "a")))]
    elif shape < 0.24:
        q["from_"] = (("sub", {"select": [(C(c), c) for _, c, _ in COLS], "from_": (("table", "t1"), None), "where": ("bin", ">", C("id"), ("lit", rng.randint(0, 6)))}), "a")
        a = rng.choice([None, "a"])
    ex = gen.Ex(rng, [(a, n, t) for _, n, t in COLS], funcs=False)
    keys = [] if rng.random() < 0.1 else [key(rng, a) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
    q["group"] = keys
    sel = []
    if rng.random() < 0.9:
        for n, k in enumerate(keys):
            sel.append((k, "k%d" % n, "s"))
    for n in range(rng.randint(1, 5)):
        e, t = nested(rng, ex, a) if rng.random() < 0.3 else agg(rng, ex, a, True)
        sel.append((e, "x%d" % n, t))
    if rng.random() < 0.3:
        rng.shuffle(sel)
    q["select"] = [(e, n) for e, n, _ in sel]
    if rng.random() < 0.25:
        q["where"] = ("bin", rng.choice([">", "<=", "!="]), C("id", a), ("lit", rng.randint(0, 20)))
    num = [(e, n) for e, n, t in sel if t in "if" and n[0] == "x"]
    if num and rng.random() < 0.5:
        def h():
            e, n = rng.choice(num)
            x = C(n)
            k = rng.random()
            if k < 0.6:
                return ("bin", rng.choice(["=", "!=", "<", "<=", ">", ">="]), x, ex.lit("i"))
            if k < 0.7:
                return ("in", C(n), [ex.lit("i") for _ in range(3)] + [("lit", 0)], rng.random() < 0.4)
            if k < 0.8:
                return ("isnull", C(n), rng.random() < 0.6)
            if k < 0.9:
                return ("between", C(n), ("lit", -5), ("lit", rng.randint(0, 12)), rng.random() < 0.3)
            return ("bin", rng.choice(["<", ">="]), C(n), C(rng.choice(num)[1]))
        p = h()
        for _ in range(rng.choice([0, 0, 1, 2])):
            p = ("bin", rng.choice(["and", "or"]), p, h())
        if rng.random() < 0.12:
            p = ("not", p)
        q["having"] = p
    if rng.random() < 0.06:
        q["select"] = [(gen.jitted(rng, e, 0.6), n) for e, n in q["select"]]
    perm = list(tables["t1"])
    rng.shuffle(perm)
    return {"tables": tables, "q": q, "perm": perm}


def fix(rows, q):
    """Decode JSON text results and sets so that both sides compare by value."""
    js = {n for e, n in q["select"] if e[0] == "agg" and e[1].startswith("json")}
    st = {n for e, n in q["select"] if e[0] == "agg" and e[1] == "group_uniq_array"}
    out = []
    for r in rows:
        r = dict(r)
        for n in r:
            if n in js and isinstance(r[n], str):
                r[n] = json.loads(r[n])
            if n in st and r[n] is not None:
                if isinstance(r[n], (list, tuple)) and len(set(map(eng.norm, r[n]))) != len(r[n]):
                    continue
                r[n] = frozenset(r[n])
        out.append(r)
    return out


def nodes(e):
    if isinstance(e, tuple):
        if e and e[0] == "agg":
            yield e
        for x in e:
            yield from nodes(x)
    elif isinstance(e, list):
        for x in e:
            yield from nodes(x)


def run(case, obs):
    q, tables = case["q"], case["tables"]
    sql = M.qsql(q)
    if len(sql) % 3 == 0:
        for name in ("group_array", "group_uniq_array", "group_bit_and", "group_bit_or", "group_bit_xor"):
            parts = name.split("_")
            alias = parts[0] + "".join(p.capitalize() for p in parts[1:])
            obs.hit("alias", (name + "(") in sql)
            sql = sql.replace(name + "(", (alias if len(sql) % 2 else alias.lower()) + "(")
    big = 0
    for tag, t in (("in order", tables["t1"]), ("permuted", case["perm"])):
        tb = dict(tables, t1=t)
        m = M.Model(tb)
        want = m.query(q)
        got = eng.attempt(eng.query, eng.engine(tb), sql)
        obs.hit("queries")
        if tag == "permuted":
            obs.hit("permuted")
        if isinstance(got, eng.Raised) or not eng.same_rows(fix(got, q), want):
            obs.fail("group", "grouped result differs (%s)" % tag, sql=sql, got=got, want=want, t1=t[:30], t2=tables.get("t2"))
            break
    else:
        obs.hit("groups", len(want))
        free = dict(q, having=None)
        free["select"] = q["select"] + [(("agg", "count", None, False), "zz")]
        base = m.query(free)
        big = sum(1 for r in base if r["zz"] > 1)
        if q.get("having") is not None:
            obs.hit("having_kept", len(want))
            obs.hit("having_dropped", len(base) - len(want))
        obs.hit("null_key", sum(1 for r in base if any(n[0] == "k" and v is None for n, v in r.items())))
        obs.hit("null_values", sum(1 for r in t if None in (r["n"], r["f"], r["s"])))
        for e, n in q["select"]:
            for x in nodes(e):
                obs.hit("countd" if x[3] else x[1])
            if e[0] != "agg" and n[0] == "x":
                obs.hit("nested")
        obs.hit("global", not q["group"])
        if len(base) > 1 and big:
            obs.nontrivial(sql, want)
            obs.sample({"sql": sql, "groups": len(want)})
