"""C12: the same statement in batches of any size against one pass."""
import json, os, re, shutil
from vlib import eng, harness, pool

META = {
    "id": "C12", "sizes": {"quick": 6000, "thorough": 90000}, "chunk": 40, "probes": True,
    "rule": "a statement (or INSERT in some mode) was executed in one pass and in batches of several sizes, at least one smaller than a source table, and returned rows",
    "required": {"runs": 12000, "split": 8000, "group": 1500, "join": 1500, "nest": 1500, "window": 500, "sets": 500, "order": 500, "insert": 1000, "insert_batch": 500, "file": 6000, "file_group": 1000, "file_join": 500, "file_nest": 1000, "file_order": 400, "file_sets": 400, "file_window": 400, "file_insert": 300},
    "technique": "runtime monitoring: differential oracle over executions of the real engine in one pass and in batches of seeded random sizes; generated statements and tables",
    "note": "Statements come from the generators of C04-C11 (filters, joins, grouping with every aggregate, DISTINCT, UNION, ORDER BY/LIMIT, subqueries, windows) over tables of 0-14 rows with NULLs, plus INSERT in every mode from plain and grouped sources; batch sizes 1..n+1 and 1000 set as @batch and/or @insert_batch. The tables are memory tables (read at once) or JSON files (read batch by batch).",
}
MODES = ["I", "U", "UI", "UDI", "DI"]


def make(rng, i, tier):
    if rng.random() < 0.2:
        s = make_insert(rng)
        s["file"] = rng.random() < 0.5
        return s
    s = pool.statement(rng, i, tier)
    n = max([len(t) for t in s["tables"].values()] + [1])
    s["batches"] = sorted({rng.choice([1, 1, 2, 3]), rng.randint(1, n + 1), rng.choice([2, 5, 7, max(1, n - 1), n, n + 1, 1000])})
    s["n"] = n
    # memory tables are always read at once: reading in batches takes tables that are stored elsewhere
    s["file"] = rng.random() < 0.7 and all(jsonable(r) for t in s["tables"].values() for r in t) \
        and not any(composite(q) for q in s["sqls"])
    return s


def composite(sql):
    """Joins on several key columns read in batches are the finding composite-join-batch."""
    return any(len(re.findall(r"\w+\.\w+`? = `?\w+`?\.`?\w+", part)) > 1 for part in re.split(r"(?i)\b(?:join|where|group by|order by|having|select|from)\b", sql))


def jsonable(r):
    return all(v is None or isinstance(v, (int, float, str)) and v == v for v in r.values())


def place(case, e, sql):
    """The statement with its tables read from JSON files when the case says so."""
    if not case["file"]:
        return sql
    d = os.path.join(harness.scratch(), "c12")
    for name in case["tables"]:
        if name != "tgt":
            sql = re.sub(r"(?i)\b(from|join)(\s+)`?%s`?(?![\w.`])" % name, lambda m: "%s%s`file://%s/%s.json`" % (m.group(1), m.group(2), d, name), sql)
    return sql


def start(case, settings):
    if not case["file"]:
        return eng.engine(case["tables"], settings=settings)
    d = os.path.join(harness.scratch(), "c12")
    os.makedirs(d, exist_ok=True)
    for name, rows in case["tables"].items():
        with open(os.path.join(d, name + ".json"), "w") as fp:
            json.dump(rows, fp)
    return eng.engine({k: v for k, v in case["tables"].items() if k == "tgt"}, settings=settings)


def query(case, settings, sql):
    e = start(case, settings)
    return eng.query(e, place(case, e, sql))


def make_insert(rng):
    n = rng.randint(0, 12)
    ints = [None, 0, 1, 2, 3, -4, 5, 100]
    src = [{"id": x, "k": rng.choice([1, 2, 3, 4]), "v": rng.choice(ints), "s": rng.choice([None, "a", "b", "A", ""])} for x in rng.sample(range(1, 20), n)]
    tgt = [{"id": x, "v": rng.choice(ints), "s": "old%d" % x} for x in rng.sample(range(1, 20), rng.randint(1, 9))]
    sqls = ["SELECT id, v, s FROM src", "SELECT id, v + 1 AS v, s FROM src WHERE v > 0 AND id < 15", "SELECT k AS id, sum(v) AS v, max(s) AS s FROM src GROUP BY k",
            "SELECT k AS id, count(DISTINCT v) AS v, min(s) AS s FROM src GROUP BY k HAVING v > 0", "SELECT k AS id, avg(v) AS v, max(s) AS s FROM src GROUP BY k",
            "SELECT id, v, s FROM src ORDER BY v DESC, id LIMIT %d" % rng.randint(1, 6), "SELECT a.id, b.v, a.s FROM src a LEFT JOIN src b ON a.k = b.id",
            "SELECT DISTINCT k AS id, 7 AS v, 'x' AS s FROM src"]
    b = rng.choice([1, 2, 3, 5, max(1, n - 1), n + 1])
    st = rng.choice([{"@batch": b}, {"@batch": b}, {"@insert_batch": b}, {"@batch": b, "@insert_batch": rng.choice([1, 2, 3, 50])}])
    return {"kind": "insert", "tables": {"src": src, "tgt": tgt}, "sql": "INSERT INTO `tgt<%s>` %s" % (rng.choice(MODES), rng.choice(sqls)), "settings": st, "n": n}


def js(rows, uniq=True):
    return [{k: (sorted(v, key=repr) if uniq and isinstance(v, list) else json.loads(v) if isinstance(v, str) and v[:1] in "[{" and valid(v) else v) for k, v in r.items()} for r in rows]


def valid(v):
    try:
        json.loads(v)
        return True
    except ValueError:
        return False


def insert(case, settings):
    e = start(case, settings)
    e.execute(place(case, e, case["sql"]))
    return e.pop_memory_datas("tgt")


def run(case, obs):
    if case["kind"] == "insert":
        base = eng.attempt(insert, case, {})
        got = eng.attempt(insert, case, case["settings"])
        obs.hit("insert")
        if case["file"]:
            obs.hit("file_insert")
        obs.hit("runs")
        if "@insert_batch" in case["settings"]:
            obs.hit("insert_batch")
        if isinstance(base, eng.Raised):
            obs.hit("base_raised")
            return
        if isinstance(got, eng.Raised) or not eng.same_rows(got, base):
            obs.fail("insert", "target rows after an INSERT in batches differ", sql=case["sql"], settings=case["settings"], got=got, want=base, tables=case["tables"])
        elif case["n"] > 1:
            obs.nontrivial(case["sql"], base)
        return
    for sql, ordered in zip(case["sqls"], case["ordered"]):
        base = eng.attempt(query, case, {}, sql)
        if isinstance(base, eng.Raised):
            obs.hit("base_raised")
            continue
        for b in case["batches"]:
            got = eng.attempt(query, case, {"@batch": b}, sql)
            obs.hit("runs")
            obs.hit(case["kind"])
            if case["file"]:
                obs.hit("file")
                obs.hit("file_" + case["kind"])
            if b < case["n"]:
                obs.hit("split")
            if isinstance(got, eng.Raised) or not eng.same_rows(js(got, "uniq" in sql), js(base, "uniq" in sql), ordered):
                obs.fail("batch", "result in batches of %d differs (%s%s)" % (b, case["kind"], " over files" if case["file"] else ""), sql=sql, got=got, want=base, tables=case["tables"])
                return
        if base:
            obs.nontrivial(sql, base)
    obs.sample({"sql": case["sqls"], "batches": case["batches"], "rows": len(base) if not isinstance(base, eng.Raised) else None})


def probes(obs):
    rows = [{"id": 1, "k": 2, "v": "r"}, {"id": 2, "k": 3, "v": "p"}, {"id": 3, "k": 2, "v": "p"}]
    case = {"file": True, "tables": {"t1": rows, "t3": [{"id": 4, "k": 2, "v": "p"}, {"id": 7, "k": 2, "v": "p"}]}}
    sql = "SELECT a.id AS a_id, c.id AS c_id FROM t1 a LEFT JOIN t3 c ON c.k = a.k AND c.v = a.v"
    base = query(case, {}, sql)
    got = query(case, {"@batch": 2}, sql)
    if not eng.same_rows(base, [{"a_id": 1, "c_id": None}, {"a_id": 2, "c_id": None}, {"a_id": 3, "c_id": 4}, {"a_id": 3, "c_id": 7}]):
        obs.fail("probe", "LEFT JOIN on two columns in one pass", got=base)
    elif not eng.same_rows(base, got):
        obs.finding("composite-join-batch", "@batch=2, %s over JSON files gives %r instead of %r" % (sql, got, base))
