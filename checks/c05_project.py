"""C05: select-list expressions, row by row, against an independent SQL evaluator."""
from vlib import eng, gen, sqlmodel as M

META = {"id": "C05", "sizes": {"quick": 16000, "thorough": 200000},
        "rule": "random table (1-12 rows, NULLs, negative, zero, numeric strings) x 1-5 random expressions of depth <= 4 (arithmetic, comparison, logic, CASE, IF, IFNULL, COALESCE, functions, IN, BETWEEN, LIKE, IS NULL) with plain columns or SELECT *; non-trivial = values differ between rows; distinct by (SQL, values)",
        "required": {"queries": 1000, "values": 10000, "null_values": 500, "star": 100}}
COLS = {"a": "i", "b": "i", "f": "f", "s": "s", "n": "n"}
gen.TYPES["n"] = lambda rng: rng.choice(["0", "1", "2", "12", "-3", "2.5", "10", "007"])
QUAL = [None, "x"]


def make(rng, i, tier):
    rows = gen.table(rng, COLS, rng.choice([1, 2, 3, 5, 8, 12]), nulls=rng.choice([0, 0.2, 0.35, 0.35, 0.7]))
    alias = rng.choice(QUAL)
    cols = [(alias, "id", "i")] + [(alias, c, t) for c, t in COLS.items()]
    ex = Ex(rng, cols)
    if rng.random() < 0.05:
        return {"rows": rows, "alias": alias, "star": True, "where": rng.random() < 0.5}
    sel = []
    order = list(range(rng.randint(1, 5)))
    jit = rng.sample(order, min(len(order), rng.choice([1, 2, 2]))) if rng.random() < 0.08 else []
    for k in order:
        d = rng.randint(0, 4)
        r = rng.random()
        if k in jit and any(x[0][0] == "jit" for x in sel) and rng.random() < 0.5:
            e = twin(rng, [x[0][1] for x in sel if x[0][0] == "jit"][0])
        else:
            e = ex.numeric(d) if r < 0.5 else ex.string(min(d, 3)) if r < 0.7 else ex.pred(d)
        if not jit and rng.random() < 0.04:
            e = gen.jitted(rng, e)
        sel.append((("jit", e) if k in jit and e[:2] != ("bin", "=") else e, "c%d" % k))
    keep = ("col", alias, "id")
    sel.insert(rng.randint(0, len(sel)), (keep, rng.choice(["id", "id", "key1"])))
    if rng.random() < 0.2:
        for c in rng.sample(list(COLS), 2):
            sel.append((("col", alias, c), c))
    if rng.random() < 0.15 and sel[0][0][0] != "jit":
        sel.append((sel[0][0], "again"))
    return {"rows": rows, "alias": alias, "sel": sel, "force_as": rng.random() < 0.2}


def twin(rng, e):
    """An expression of the same length and shape with other columns and digits."""
    if e[0] == "col" and e[2] in ("a", "b") and "a" in COLS and "b" in COLS:
        return (e[0], e[1], "b" if e[2] == "a" else "a")
    if e[0] == "lit" and isinstance(e[1], int) and not isinstance(e[1], bool) and 1 <= e[1] <= 8:
        return ("lit", e[1] + 1)
    return tuple(twin(rng, x) if isinstance(x, tuple) else x for x in e)


class Ex(gen.Ex):
    """Numeric strings appear as operands of arithmetic (comparing them with numbers is not specified)."""

    def numeric(self, d):
        r = self.rng
        if r.random() < 0.08:
            c = super().col("n")
            k = r.random()
            if k < 0.25:
                return ("neg", c)
            other = super().numeric(max(0, d - 1))
            return ("bin", r.choice("+-*/%"), *((c, other) if k < 0.65 else (other, c)))
        return super().numeric(d)


def run(case, obs):
    m = M.Model({"t1": case["rows"]})
    if case.get("star"):
        q = {"select": "*", "from_": (("table", "t1"), case["alias"])}
        if case["where"]:
            q["where"] = ("bin", ">", ("col", case["alias"], "id"), ("lit", 2))
        obs.hit("star")
    else:
        q = {"select": case["sel"], "from_": (("table", "t1"), case["alias"]), "force_as": case["force_as"]}
    sql = M.qsql(q)
    want = m.query(q)
    e = eng.engine({"t1": case["rows"]})
    got = eng.attempt(eng.query, e, sql)
    obs.hit("queries")
    obs.hit("values", sum(len(r) for r in want))
    obs.hit("null_values", sum(1 for r in want for v in r.values() if v is None))
    if not eng.same_rows(got, want, ordered=True):
        obs.fail("project", "selected values differ", sql=sql, diff=diff(got, want, case), rows=case["rows"][:6])
    elif got and want and list(got[0]) != list(want[0]):
        obs.fail("columns", "column order differs", sql=sql, got=list(got[0]), want=list(want[0]))
    if len({repr({k: v for k, v in r.items() if k != "id"}) for r in want}) > 1:
        obs.nontrivial(sql, want)
        obs.sample({"sql": sql, "first": want[0]})


def diff(got, want, case):
    if isinstance(got, eng.Raised):
        return got
    if len(got) != len(want):
        return "%d rows, expected %d" % (len(got), len(want))
    out = []
    names = {a: M.sql(e) for e, a in case.get("sel") or []}
    for g, w in zip(got, want):
        for k in w:
            if k not in g or eng.norm(g[k]) != eng.norm(w[k]):
                out.append("%s = %r, expected %r; %s; id=%s" % (k, g.get(k, "absent"), w[k], names.get(k), w.get("id")))
    return out[:3]
