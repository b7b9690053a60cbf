"""C26: execution settings never change an answer; @limit bounds result rows exactly; restoring a setting restores the behaviour."""
import json, os, re
from vlib import eng, harness, pool
from checks import c12_batch
from checks.c12_batch import js, place, start

META = {
    "id": "C26", "sizes": {"quick": 6000, "thorough": 90000}, "chunk": 40, "probes": True,
    "rule": "a statement or script of the pool was executed with default settings and under a random combination of execution settings set by SET or through the host API (and again after restoring them); the result was non-empty",
    "required": {"runs": 5000, "@streaming": 1000, "@join_batch": 800, "@insert_batch": 800, "@verbose": 500, "@timeout": 800, "@recovery": 500, "@batch": 800, "limit_runs": 900, "limit_cut": 250,
                 "file": 800, "restored": 3000, "by_set": 2000, "by_api": 2000, "script": 700, "into": 300, "insert_mode": 400},
    "technique": "runtime monitoring: differential oracle over executions of the real engine under seeded random execution settings against default settings",
    "note": "Pool statements of C04-C11, multi-statement scripts (INSERT, DELETE, SELECT INTO, reads) and INSERT modes. A @limit of n must return exactly min(n, rows) rows of the unlimited result (its prefix when ordered) unless the statement has its own LIMIT.",
}
DEFAULTS = {"@streaming": 0, "@join_batch": 10000, "@insert_batch": 0, "@verbose": 0, "@timeout": 0, "@recovery": 0, "@batch": 0, "@limit": 0}


def settings(rng, n, composite):
    out = {}
    for k in rng.sample(["@streaming", "@streaming", "@join_batch", "@insert_batch", "@verbose", "@timeout", "@recovery", "@batch"], rng.randint(1, 4)):
        out[k] = {"@streaming": lambda: 1, "@join_batch": lambda: 10000 if composite else rng.choice([1, 2, 3, 5, 100]), "@insert_batch": lambda: rng.choice([1, 2, 3, 100]),
                  "@verbose": lambda: 1, "@timeout": lambda: rng.choice([30, 3600]), "@recovery": lambda: 1,
                  "@batch": lambda: rng.choice([1, 2, 3, max(1, n), 1000])}[k]()
    return out


def composite(sql):
    """Joins over several key columns in join batches: the known finding of C06."""
    for on in re.findall(r" ON (.*?)(?= LEFT | INNER | RIGHT | JOIN | WHERE | GROUP | ORDER | LIMIT |\)|$)", sql, re.S):
        if len(re.findall(r"\w+\.\w+ = \w+\.\w+", on)) > 1:
            return True
    return False


def make(rng, i, tier):
    x = rng.random()
    if x < 0.15:
        c = c12_batch.make_insert(rng)
        c["kind"], c["set"], c["api"], c["file"] = "insert", settings(rng, c["n"], False), rng.random() < 0.5, rng.random() < 0.4
        return streamed(c)
    if x < 0.35:
        return make_script(rng)
    s = pool.statement(rng, i, tier)
    s["n"] = max([len(t) for t in s["tables"].values()] + [1])
    s["set"] = settings(rng, s["n"], any(composite(q) for q in s["sqls"]))
    s["api"] = rng.random() < 0.5
    s["limit"] = rng.choice([1, 2, 3, s["n"], s["n"] * 2 + 1]) if rng.random() < 0.4 else None
    s["file"] = rng.random() < 0.4 and all(c12_batch.jsonable(r) for t in s["tables"].values() for r in t) \
        and not any(c12_batch.composite(q) for q in s["sqls"])
    return streamed(s)


def streamed(case):
    """Tables read in batches and handed over after each of them are the finding streaming-batches."""
    if case["file"] and "@streaming" in case["set"] and "@batch" in case["set"]:
        del case["set"]["@batch"]
    return case


def make_script(rng):
    n = rng.randint(1, 9)
    t = [{"id": j, "k": rng.randint(0, 3), "v": rng.choice([None, 1, 2, 5, -3])} for j in range(1, n + 1)]
    stmts = ["insert into m select id, k, v from t"]
    inserts = ["insert into `m<UDI>` select id, k, v from t where id > %d" % rng.randint(0, n), "insert into `m<UI>` select id, k + 1 as k, v from t where id < %d" % rng.randint(1, n + 1),
               "insert into m select id + 100 as id, k, v from t", "insert into `m<DI>` select id, k, v from t where id <> %d" % rng.randint(1, n)]
    reads = ["insert into o%d select k, count(*) as c, sum(v) as s, avg(v) as a from m group by k order by k", "insert into o%d select id, v from m where k >= 1 order by id",
             "insert into o%d select a.id, b.k as bk, b.v from m a left join t b on a.k = b.id", "insert into o%d select distinct k from m",
             "insert into o%d select id, @x as x from t", "insert into o%d select id from m union all select k from m",
             "insert into o%d select id, sum(id) over (partition by k order by id) as s from m", "insert into o%d select id from m where id in (select id from t where k > 0)",
             "insert into o%d select a.id, (select count(*) as c from t b where b.id = a.k) as c from m a"]
    intos = ["select count(*) as c into @x from m", "select avg(v) as a into @x from t where k > 0", "select id into @x from m where id < 4", "select k, sum(id) as s into @x from m group by k",
             "select max(id) + min(id) as q into @x from m"]
    out = 0
    for _ in range(rng.randint(1, 5)):
        y = rng.random()
        if y < 0.25:
            stmts.append(rng.choice(inserts))
        elif y < 0.4:
            stmts.append("delete from m where id %s %d" % (rng.choice(["<", ">", "="]), rng.randint(1, n)))
        elif y < 0.6:
            stmts.append(rng.choice(intos))
        else:
            stmts.append(rng.choice(reads) % out)
            out += 1
    return {"kind": "script", "tables": {"t": t}, "script": ";\n".join(stmts), "outs": out, "n": n, "set": settings(rng, n, False), "api": rng.random() < 0.5,
            "into": any("into @x" in s for s in stmts)}


def apply(e, st, api):
    for k, v in st.items():
        if api:
            e.set_variable(k, v)
        else:
            e.execute("SET %s=%s" % (k, v))


def run_script(case, st):
    e = eng.engine(case["tables"])
    e.set_variable("@x", None)
    apply(e, st, case["api"])
    e.execute(case["script"])
    r = {"m": e.pop_memory_datas("m"), "t": e.pop_memory_datas("t"), "x": e.get_variable("@x")}
    for i in range(case["outs"]):
        r["o%d" % i] = e.pop_memory_datas("o%d" % i)
    left = [k for k in eng.memory_tables(e) if eng.memory_tables(e)[k]]
    return r, left


def run_insert(case, st):
    e = start(case, {})
    apply(e, st, case["api"])
    e.execute(place(case, e, case["sql"]))
    return e.pop_memory_datas("tgt")


def probes(obs):
    path = os.path.join(harness.scratch(), "probe26.json")
    with open(path, "w") as f:
        json.dump([{"id": n} for n in range(5)], f)
    e = eng.engine({})
    e.execute("SET @streaming=1; SET @batch=2; INSERT INTO o SELECT x.id FROM (SELECT id FROM `file://%s`) x" % path)
    got = [r["id"] for r in e.pop_memory_datas("o") or []]
    if got != list(range(5)) and set(got) == set(range(5)):
        obs.finding("streaming-batches", "SELECT over a subquery with @streaming and @batch=2 gives the ids %s" % got)
    elif got != list(range(5)):
        obs.fail("probe", "a subquery over a file with @streaming and @batch gives the ids %r" % got)


def count(obs, case):
    for k in case["set"]:
        obs.hit(k)
    obs.hit("runs")
    if case.get("file"):
        obs.hit("file")
    obs.hit("by_api" if case["api"] else "by_set")


def run(case, obs):
    count(obs, case)
    if case["kind"] == "insert":
        obs.hit("insert_mode")
        base, got = eng.attempt(run_insert, case, {}), eng.attempt(run_insert, case, case["set"])
        if isinstance(base, eng.Raised):
            obs.hit("base_raised")
        elif not eng.same_rows(got, base):
            obs.fail("insert", "rows stored by an INSERT under %s differ" % case["set"], sql=case["sql"], got=got, want=base, tables=case["tables"])
        else:
            obs.nontrivial(case["sql"], base)
        return
    if case["kind"] == "script":
        obs.hit("script")
        if case["into"]:
            obs.hit("into")
        base, got = eng.attempt(run_script, case, {}), eng.attempt(run_script, case, case["set"])
        if isinstance(base, eng.Raised):
            obs.hit("base_raised")
            return
        if isinstance(got, eng.Raised) or got[1] or any(eng.norm(got[0]["x"]) != eng.norm(base[0]["x"]) if k == "x" else not eng.same_rows(got[0][k], v) for k, v in base[0].items()):
            obs.fail("script", "effects of a script under %s differ" % case["set"], script=case["script"], got=got, want=base, tables=case["tables"])
        else:
            obs.nontrivial(case["script"], base)
        return
    for sql, ordered in zip(case["sqls"], case["ordered"]):
        e = start(case, {})
        sql = place(case, e, sql)
        base = eng.attempt(eng.query, e, sql)
        if isinstance(base, eng.Raised):
            obs.hit("base_raised")
            continue
        e = start(case, {})
        apply(e, case["set"], case["api"])
        got = eng.attempt(eng.query, e, sql)
        if isinstance(got, eng.Raised) or not eng.same_rows(js(got), js(base), ordered):
            obs.fail("setting", "result under %s differs (%s)" % (case["set"], case["kind"]), sql=sql, got=got, want=base, tables=case["tables"])
            return
        if case["limit"] and not re.search(r" LIMIT \d+(, ?\d+| OFFSET \d+)?\)?$", sql) and " OFFSET " not in sql:
            apply(e, {"@limit": case["limit"]}, case["api"])
            got = eng.attempt(eng.query, e, sql)
            obs.hit("limit_runs")
            if case["limit"] < len(base):
                obs.hit("limit_cut")
            if not limited(got, base, case["limit"], ordered):
                obs.fail("limit", "@limit %d (%s) returns wrong rows" % (case["limit"], case["set"]), sql=sql, got=got, unlimited=base, tables=case["tables"])
                return
        apply(e, {k: DEFAULTS[k] for k in list(case["set"]) + ["@limit"]}, case["api"])
        got = eng.attempt(eng.query, e, sql)
        obs.hit("restored")
        if isinstance(got, eng.Raised) or not eng.same_rows(js(got), js(base), ordered):
            obs.fail("restore", "result after restoring %s differs" % case["set"], sql=sql, got=got, want=base, tables=case["tables"])
            return
        if base:
            obs.nontrivial(sql, base, sorted(case["set"].items()))
    obs.sample({"sql": case["sqls"], "set": case["set"], "limit": case["limit"]})


def limited(got, base, n, ordered):
    if isinstance(got, eng.Raised):
        return False
    g, b = [repr(eng.nrow(r)) for r in js(got)], [repr(eng.nrow(r)) for r in js(base)]
    if len(g) != min(n, len(b)):
        return False
    if ordered:
        return g == b[:n]
    for r in g:
        if r not in b:
            return False
        b.remove(r)
    return True
