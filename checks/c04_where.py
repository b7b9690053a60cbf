"""C04: WHERE filtering against an independent three-valued-logic evaluator."""
from vlib import eng, gen, quirk, sqlmodel as M

META = {"id": "C04", "sizes": {"quick": 24000, "thorough": 300000}, "probes": True,
        "rule": "random table (0-20 rows, NULLs, duplicates) x random predicate; non-trivial = the predicate keeps some rows and drops some; distinct by (SQL, kept ids)",
        "required": {"queries": 1000, "rows_kept": 1000, "rows_dropped": 1000}}
COLS = {"a": "i", "b": "i", "f": "f", "s": "s", "u": "s"}


def make(rng, i, tier):
    rows = gen.table(rng, COLS, gen.nrows(rng), nulls=rng.choice([0, 0.15, 0.3]))
    alias = rng.choice([None, "x"])
    cols = [(alias, "id", "i")] + [(alias, c, t) for c, t in COLS.items()]
    ex = gen.Ex(rng, cols)
    n = rng.randint(1, 3)
    preds = [ex.pred(rng.randint(0, 3)) for _ in range(n)]
    if rng.random() < 0.15:                # several comparisons of one column, often with the same operator
        c, ops = rng.choice(["id", "a", "b", "f"]), rng.choice([["!="], ["!="], ["<", ">"], [">="], ["<="], ["=", "!="], ["in", "!="], ["in"], ["=", "<", ">", "<=", ">=", "!="]])
        preds = preds[:1] if rng.random() < 0.3 else []
        for _ in range(rng.randint(2, 5)):
            op, col = rng.choice(ops), ("col", alias, c)
            v = ("lit", rng.randint(-3, 12) if c != "id" else rng.randint(0, 20))
            preds.append(("in", col, [("lit", rng.randint(-2, 12)) for _ in range(rng.randint(2, 8))], rng.random() < 0.3) if op == "in" else ("bin", op, col, v) if rng.random() < 0.9 else ("bin", op, v, col))
        rng.shuffle(preds)
    p = preds[0]
    for q in preds[1:]:
        p = ("bin", "and", p, q)
    return {"rows": rows, "alias": alias, "pred": p}


def diff(got, want):
    if isinstance(got, eng.Raised):
        return got
    g, w = {repr(r) for r in got}, {repr(r) for r in want}
    return "extra %s missing %s" % ([r for r in got if repr(r) not in w][:4], [r for r in want if repr(r) not in g][:4])


def run(case, obs):
    q = {"select": [(("col", case["alias"], c), c) for c in ["id"] + list(COLS)], "from_": (("table", "t1"), case["alias"]), "where": case["pred"]}
    sql = M.qsql(q)
    model = M.Model({"t1": case["rows"]})
    want = model.query(q)
    e = eng.engine({"t1": case["rows"]})
    got = eng.attempt(eng.query, e, sql)
    obs.hit("queries")
    obs.hit("rows_kept", len(want))
    obs.hit("rows_dropped", len(case["rows"]) - len(want))
    if not eng.same_rows(got, want, ordered=True):
        if known(case, model, got):
            obs.finding("pushdown-compare", sql)
        else:
            obs.fail("where", "result differs from the rows whose predicate is true", sql=sql.split(" WHERE ")[1], got=diff(got, want), want=want and [r["id"] for r in want], rows=case["rows"])
    if 0 < len(want) < len(case["rows"]):
        obs.nontrivial(sql, [r["id"] for r in want])
        obs.sample({"sql": sql, "kept": len(want), "of": len(case["rows"])})


def known(case, model, got):
    """Differs only in rows on which the loader's own comparator and SQL disagree, and is otherwise intact."""
    if isinstance(got, eng.Raised):
        return False
    byid = {r["id"]: r for r in got}
    if len(byid) != len(got):
        return False
    expect = []
    for r in case["rows"]:
        ideal, must, may = quirk.verdicts(model, case["pred"], {case["alias"] or "t1": r})
        kept = r["id"] in byid
        if (kept and not may) or (must and not kept):
            return False
        if kept:
            expect.append(r)
    return eng.same_rows(got, expect, ordered=True)


PROBES = [("a < 5", [2]), ("a <= 5", [2]), ("a != 3", [3]), ("a = NULL", []), ("a > NULL", []), ("a = 3.5", [])]


def probes(obs):
    rows = [{"id": 1, "a": None}, {"id": 2, "a": 3}, {"id": 3, "a": 7}]
    for p, want in PROBES:
        got = eng.attempt(eng.query, eng.engine({"t1": rows}), "SELECT id, a FROM t1 WHERE " + p)
        if isinstance(got, eng.Raised):
            obs.fail("where", "probe raised", sql=p, got=got)
        elif [r["id"] for r in got] != want:
            obs.finding("pushdown-compare", "%s keeps %s" % (p, [r["id"] for r in got]))
        obs.hit("probes")
