"""C25: queries never change their sources; EXPLAIN changes no answer; returned rows are independent of stored rows."""
import copy, csv, hashlib, json, os, re, shutil, sqlite3
from vlib import eng, harness, pool
from checks.c12_batch import js

META = {
    "id": "C25", "sizes": {"quick": 4500, "thorough": 70000}, "chunk": 40,
    "rule": "a statement of the pool, a query over files or a nested-value query was run repeatedly, plain and under EXPLAIN, with every table, file and variable snapshotted before and after; the result was non-empty",
    "required": {"pool": 1500, "repeat": 3500, "explain": 1500, "mutated_rows": 1200, "variables": 1200, "nested": 500, "files": 200, "copy_then_change": 400, "show": 300, "show_run": 100},
    "technique": "runtime monitoring: state snapshots (tables, files, variables) taken around real executions, compared by an oracle of no change; differential EXPLAIN vs plain",
    "note": "Covers in-place mutation through every evaluation path the pool reaches, aliasing between tables (INSERT ... SELECT * followed by changes of the copy), between rows handed to or by the caller and stored rows, and file sources (CSV, JSON, text, sqlite).",
}
ROWS = [{"id": 1, "k": 1, "v": 1.5, "s": "a", "j": {"a": [1, {"b": 2}], "c": None}, "l": [3, 1, 2]}, {"id": 2, "k": 1, "v": None, "s": "b", "j": {"a": [], "c": {"d": "x"}}, "l": []},
        {"id": 3, "k": 2, "v": -2, "s": None, "j": {"e": "f"}, "l": [1, [2, [3]], {"z": 1}]}, {"id": 4, "k": 2, "v": 0, "s": "", "j": None, "l": None}]
NESTED = ["SELECT id, json_set(j, '$.a', 5) AS x FROM t", "SELECT id, json_set(j, '$.c.q', 5, '$.a[0]', 'n') AS x FROM t", "SELECT id, json_remove(j, '$.a') AS x, j FROM t", "SELECT id, json_remove(l, '$[0]') AS x FROM t",
          "SELECT id, json_extract(j, '$.a') AS x, json_keys(j) AS y FROM t", "SELECT k, group_array(l) AS g FROM t GROUP BY k", "SELECT k, group_array(j) AS g, json_arrayagg(l) AS h FROM t GROUP BY k",
          "SELECT id, group_array(l) OVER (PARTITION BY k) AS g FROM t", "SELECT id, group_array(l) OVER (PARTITION BY k ORDER BY id) AS g FROM t", "SELECT k, json_objectagg(s, l) AS g FROM t GROUP BY k",
          "SELECT id, yield_array(l) AS y FROM t", "SELECT * FROM t", "SELECT j, l FROM t ORDER BY id DESC", "SELECT DISTINCT s, k FROM t", "SELECT a.j, b.l FROM t a LEFT JOIN t b ON a.k = b.id",
          "SELECT id, l FROM t UNION ALL SELECT id, j FROM t", "SELECT j FROM (SELECT j, l FROM t WHERE id < 4) a", "SELECT id, coalesce(l, j) AS c, if(id > 2, j, l) AS d FROM t",
          "SELECT id, json_set(l, '$[0]', json_array(1)) AS x FROM t WHERE l IS NOT NULL", "SELECT id, lag(l) OVER (ORDER BY id) AS p, first_value(j) OVER (ORDER BY id) AS q FROM t",
          "SELECT id, json_array(l, j, id) AS a, json_object('x', l) AS o FROM t", "SELECT id, json_set(json_object('x', l), '$.x[0]', 9) AS o FROM t", "SELECT id, json_array_append(l, '$', 5) AS o FROM t",
          "SELECT k, max(v) AS m, group_concat(s) AS gc FROM t GROUP BY k HAVING m > 0", "SELECT id, json_set(@nest, '$[0]', 7) AS o, json_remove(@doc, '$.a') AS p FROM t", "SELECT id, l, @nest AS n, @doc AS d FROM t",
          "SELECT id, coalesce(@nest, l) AS n FROM t ORDER BY l IS NULL, id"]
VARS = {"@nest": [1, [2, 3], {"a": 1}], "@doc": {"a": {"b": [1]}, "c": 2}, "@num": 5, "@txt": "x'y", "@none": None}


def make(rng, i, tier):
    x = rng.random()
    if x < 0.55:
        s = pool.statement(rng, i, tier)
        s["times"] = rng.randint(1, 3)
        s["explain"] = rng.random() < 0.5
        s["st"] = rng.choice([{}, {}, {"@batch": 2}, {"@streaming": 1}])
        s["show"] = rng.random() < 0.06
        return s
    if x < 0.75:
        return {"kind": "nested", "sqls": [rng.choice(NESTED) for _ in range(rng.randint(1, 3))], "explain": rng.random() < 0.3, "st": rng.choice([{}, {}, {"@batch": 2}]), "times": 2}
    if x < 0.9:
        return {"kind": "copy", "how": rng.choice(["SELECT * FROM t", "SELECT * FROM t WHERE id > 0", "SELECT id, k, v, s, j, l FROM t", "SELECT * FROM (SELECT * FROM t) a", "SELECT a.id, a.j, a.l FROM t a",
                                                   "SELECT * FROM t ORDER BY id", "SELECT * FROM t LIMIT 10", "WITH c AS (SELECT * FROM t) SELECT * FROM c"]),
                "then": rng.choice(["INSERT INTO `m<UI>` SELECT id, concat(s, 'x') AS s, 99 AS v FROM t WHERE id < 3", "INSERT INTO `m<U>` SELECT id, 77 AS k FROM t", "INSERT INTO `m<UDI>` SELECT id, 5 AS v FROM t WHERE id = 2",
                                    "DELETE FROM m WHERE id = 1", "INSERT INTO `m<DI>` SELECT id FROM t", "DELETE FROM m"]), "st": rng.choice([{}, {"@batch": 2}, {"@streaming": 1}]),
                "host": rng.choice(["get", "pop", "push", "var", "none"])}
    if x < 0.96:
        n = rng.randint(1, 8)
        return {"kind": "files", "rows": [{"id": j, "k": rng.randint(0, 3), "v": rng.choice(["a", "b", "c d", "é"])} for j in range(1, n + 1)], "fmt": rng.choice(["csv", "json", "sqlite"]), "q": rng.randint(0, 9),
                "explain": rng.random() < 0.3}
    return {"kind": "show", "what": rng.choice(["imports", "databases"]), "cfg": rng.random() < 0.5}


FILEQ = ["SELECT * FROM {f}", "SELECT id, v FROM {f} WHERE k > 0", "SELECT k, count(*) AS c FROM {f} GROUP BY k", "SELECT a.id, b.v FROM {f} a LEFT JOIN t b ON a.k = b.id", "SELECT a.id, b.v AS w FROM t a LEFT JOIN {f} b ON a.id = b.id",
         "SELECT DISTINCT k FROM {f} ORDER BY k DESC", "SELECT id FROM {f} UNION ALL SELECT id FROM t", "SELECT id, row_number() OVER (PARTITION BY k ORDER BY id) AS r FROM {f}",
         "SELECT id FROM t WHERE id IN (SELECT id FROM {f})", "SELECT concat(v, '!') AS w FROM (SELECT v FROM {f} WHERE id > 1) z LIMIT 3"]


def state(e):
    held = set(getattr(getattr(e, "executor", None), "env_variables", None) or ())      # the variables of the session, by name
    return copy.deepcopy(eng.memory_tables(e)), {k: copy.deepcopy(e.get_variable(k)) for k in sorted(held | set(VARS))}


def same_state(a, b):
    t1, t2 = ({k: v for k, v in x[0].items() if v} for x in (a, b))
    return repr(sorted(t1.items())) == repr(sorted(t2.items())) and repr(sorted(a[1].items())) == repr(sorted(b[1].items()))


def scramble(rows):
    """What a caller may do with the rows it got."""
    for r in rows:
        for k, v in list(r.items()):
            if isinstance(v, list):
                v.append("scrambled")
                for y in v:
                    if isinstance(y, dict):
                        y["scrambled"] = 1
            elif isinstance(v, dict):
                v["scrambled"] = 1
            else:
                r[k] = "scrambled"
        r["extra"] = 1


def engine(tables, st):
    e = eng.engine(copy.deepcopy(tables), settings=st)
    for k, v in VARS.items():
        e.set_variable(k, copy.deepcopy(v))
    return e


def query(e, sql, explain):
    e.execute("%sINSERT INTO `vout` %s" % ("EXPLAIN " if explain else "", sql))
    return e.pop_memory_datas("vout")


def run(case, obs):
    {"copy": run_copy, "files": run_files, "show": run_show}.get(case["kind"], run_pool)(case, obs)


def run_pool(case, obs):
    nested = case["kind"] == "nested"
    tables = {"t": ROWS} if nested else case["tables"]
    obs.hit("nested" if nested else "pool")
    e = engine(tables, case["st"])
    before = state(e)
    for i, sql in enumerate(case["sqls"]):
        ordered = not nested and case["ordered"][i]
        first = eng.attempt(query, e, sql, False)
        if isinstance(first, eng.Raised):
            obs.hit("raised")
            e.execute("DELETE FROM `vout`")
        if not same_state(state(e), before):
            obs.fail("state", "a table or variable changed by a query", sql=sql, got=state(e), want=before)
            return
        if isinstance(first, eng.Raised):
            continue
        keep = copy.deepcopy(first)
        scramble(first)
        obs.hit("mutated_rows")
        if not same_state(state(e), before):
            obs.fail("alias", "changing returned rows changed a stored table or variable", sql=sql, got=state(e), want=before)
            return
        for t in range(case["times"]):
            obs.hit("repeat")
            explain = case["explain"] and t == 0
            if explain:
                obs.hit("explain")
            got = eng.attempt(query, e, sql, explain)
            if isinstance(got, eng.Raised) or not eng.same_rows(js(got), js(keep), ordered):
                obs.fail("explain" if explain else "repeat", "the %s run of a query gives another answer" % ("EXPLAINed" if explain else "repeated"), sql=sql, got=got, want=keep, tables=tables)
                return
            if not same_state(state(e), before):
                obs.fail("state", "a table or variable changed by a repeated query", sql=sql, explain=explain, got=state(e), want=before)
                return
        obs.hit("variables")
        if case.get("show"):
            eng.attempt(e.execute, "SHOW IMPORTS")
            obs.hit("show_run")
            if not same_state(state(e), before):
                obs.fail("show", "SHOW changed a table or variable", got=state(e), want=before)
        if keep:
            obs.nontrivial(sql, keep)
    if nested:
        obs.sample({"sql": case["sqls"]})


def run_copy(case, obs):
    obs.hit("copy_then_change")
    e = engine({"t": ROWS}, case["st"])
    host = copy.deepcopy(ROWS)
    before = state(e)
    e.execute("INSERT INTO m " + case["how"])
    want = copy.deepcopy(e.get_memory_datas("m"))
    e.execute(case["then"])
    after = state(e)
    if repr(after[0].get("--.t")) != repr(before[0]["--.t"]) or repr(after[1]) != repr(before[1]):
        obs.fail("copy", "changing a copy changed the table it was copied from", copied=case["how"], then=case["then"], got=after, want=before)
        return
    e2 = engine({}, case["st"])
    if case["host"] == "push":
        e2.push_memory_datas("t", host)
        scramble(host)
    else:
        e2.push_memory_datas("t", host)
        e2.execute("INSERT INTO m " + case["how"])
        if case["host"] == "get":
            scramble(e2.get_memory_datas("m"))
            scramble(e2.get_memory_datas("t"))
        elif case["host"] == "pop":
            scramble(e2.pop_memory_datas("m"))
        elif case["host"] == "var":
            e2.execute(case["how"].replace("SELECT *", "SELECT id, j, l", 1).replace(" FROM", " INTO @got FROM", 1) if case["how"].startswith("SELECT *") else "SELECT id, j, l INTO @got FROM t")
            scramble([r for r in e2.get_variable("@got")])
    left = eng.memory_tables(e2)
    if repr(left["--.t"]) != repr(ROWS) or (case["host"] in ("get", "var") and repr(left["--.m"]) != repr(want)):
        obs.fail("alias", "changing rows handed over by or to the host changed stored rows (%s)" % case["host"], copied=case["how"], got=left, want=ROWS)
        return
    obs.nontrivial(case["how"], case["then"], case["host"], case["st"])


def digest(d):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            out[os.path.relpath(p, d)] = hashlib.sha256(open(p, "rb").read()).hexdigest()
    return out


def run_files(case, obs):
    obs.hit("files")
    d = os.path.join(harness.scratch(), "f%d" % (obs.index or 0))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    old = os.getcwd()
    os.chdir(d)
    try:
        rows, cfg = case["rows"], None
        if case["fmt"] == "csv":
            with open("x.csv", "w", newline="", encoding="utf-8") as f:
                w = csv.DictWriter(f, ["id", "k", "v"])
                w.writeheader()
                w.writerows(rows)
            name = "`file://x.csv`"
        elif case["fmt"] == "json":
            json.dump(rows, open("x.json", "w"))
            name = "`file://x.json`"
        else:
            c = sqlite3.connect("x.db")
            c.execute("create table x(id integer primary key, k integer, v text)")
            c.executemany("insert into x values(:id,:k,:v)", rows)
            c.commit()
            c.close()
            name, cfg = "sq.x", {"databases": [{"name": "sq", "driver": "sqlite", "database": os.path.join(d, "x.db")}]}
        open("other.csv", "w").write("id\n1\n")
        e = eng.ScriptEngine(cfg)
        e.push_memory_datas("t", [{"id": j, "v": "m%d" % j} for j in range(4)])
        before, tables = digest(d), eng.memory_tables(e)
        sql = FILEQ[case["q"]].format(f=name)
        first = eng.attempt(query, e, sql, False)
        if isinstance(first, eng.Raised):
            obs.hit("raised")
        again = eng.attempt(query, e, sql, case["explain"])
        if case["explain"]:
            obs.hit("explain")
        if not isinstance(first, eng.Raised) and (isinstance(again, eng.Raised) or not eng.same_rows(first, again)):
            obs.fail("repeat", "repeating a query over a file gives another answer", sql=sql, got=again, want=first, rows=rows, fmt=case["fmt"])
        e.close()
        if digest(d) != before:
            obs.fail("file", "a query changed a file", sql=sql, before=before, after=digest(d), fmt=case["fmt"])
        elif first:
            obs.nontrivial(sql, first)
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def run_show(case, obs):
    obs.hit("show", 2)
    cfg = {"databases": [{"name": "d1", "driver": "memory", "params": {"a": [1]}, "virtual_views": [{"name": "v", "query": "select 1 as a", "args": []}]}], "imports": {"mm": "math"}} if case["cfg"] else None
    keep = copy.deepcopy(cfg)
    e = eng.ScriptEngine(cfg)
    e.push_memory_datas("t", copy.deepcopy(ROWS))
    for k, v in VARS.items():
        e.set_variable(k, copy.deepcopy(v))
    before, conf = state(e), copy.deepcopy(e.executor.session_config.get())
    for _ in range(2):
        r = eng.attempt(e.execute, "SHOW " + case["what"].upper())
        if isinstance(r, eng.Raised):
            obs.fail("show", "SHOW %s fails" % case["what"], got=r, config=cfg)
            return
    if not same_state(state(e), before) or repr(e.executor.session_config.get()) != repr(conf) or cfg != keep:
        obs.fail("show", "SHOW changed the session", got=e.executor.session_config.get(), want=conf)
        return
    got = eng.attempt(query, e, "SELECT id, k FROM t", False)
    if got != [{"id": r["id"], "k": r["k"]} for r in ROWS]:
        obs.fail("show", "a query after SHOW gives another answer", got=got)
        return
    obs.nontrivial(case["what"], case["cfg"])
