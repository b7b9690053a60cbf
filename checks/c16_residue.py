"""C16: failures leave no residue, finished statements leave no temporaries.

Histories of scripts on one session; a script may fail while it is split, compiled, loading a source, calculating (interrupted at the n-th
call of a user function placed anywhere in the query, or by a bad argument), or writing its output. After every script the memory
database, the variables of every scope, the configuration and the answers of the following statements are compared with a model
(SQLite evaluates the same query texts); repeated statements must answer the same and must not grow the process.
"""
import copy, json, os, sqlite3, sys
from vlib import eng

META = {
    "id": "C16", "sizes": {"quick": 2000, "thorough": 30000}, "chunk": 10,
    "rule": "after each script, failed or not, the tables held by the memory database, variables, configuration and the answers of following statements were compared with the model",
    "required": {"scripts": 9000, "ok": 2500, "failed": 6000, "fail:split": 500, "fail:compile": 1000, "fail:source": 500, "fail:calc": 500, "fail:interrupt": 2000, "fail:output": 500, "fail:file": 500, "into": 1500, "set_expr": 1200, "effects_before": 800,
                 "snapshots": 20000, "repeat": 500, "growth": 40, "batch": 3000, "explain": 700, "delete": 700, "script_file": 700, "streaming": 1000, "view": 700, "interrupted_after_rows": 1300, "sibling": 2500},
    "technique": "runtime monitoring with fault injection: failures injected at every stage and at the n-th evaluation of a function anywhere in the query; memory-database, variable and configuration snapshots, SQLite as answer oracle, allocation growth over repetitions",
    "note": "The failing statement's own target may hold rows of batches already written. A failing file script, like any script, is compiled as a whole before its first statement runs.",
}

# {T}: source (memory table, JSON file, database table); {B}: the function that may interrupt (identity otherwise); {c},{k}: constants
SHAPES = [
    "select {B}(id) as a, s from {T} where id >= {c}", "select id, k from {T} where {B}(id) > {c}", "select k, sum({B}(id)) as a from {T} group by k", "select {B}(k) as a, count(*) as n from {T} group by {B}(k)",
    "select k, count(distinct {B}(id)) as a from {T} where id > {c} group by k", "select k, count(*) as n from {T} group by k having {B}(n) > {k}", "select k, sum(id) + {B}(k) as a from {T} group by k", "select id, {B}(id) as a from {T} order by a desc limit 3",
    "select distinct {B}(k) as a from {T}", "select id, row_number() over (partition by {B}(k) order by id) as r from {T}", "select id, sum({B}(id)) over (partition by k) as r from {T}",
    "select x.a as a from (select {B}(id) as a from {T}) x", "select x.id as id from (select id from {T} where id > {c}) x where {B}(x.id) > 0", "select id from {T} union all select {B}(k) as id from {T}", "select {B}(k) as id from {T} union select id from {T} where id > {c}",
    "select id, k from (select id, k from {T} union all select id, {B}(k) as k from t) u where id > {c}", "select x.a as a, count(*) as n from (select {B}(k) as a, id from {T} where id > {c}) x group by x.a",
    "select id from {T} where id in (select {B}(id) from t where k = {k})", "select id, (select max({B}(id)) from t) as m from {T}", "select id, (select max({B}(y.id)) from t y where y.k = x.k) as m from {T} x where x.id > {c}",
    "select x.id as id, {B}(y.id) as z from {T} x inner join t y on x.id = y.id", "select x.id as id, y.b as z from {T} x inner join (select id, {B}(id) as b from t where id > {c}) y on x.id = y.id", "select x.id as id, y.b as b from {T} x left join (select k, sum({B}(id)) as b from t group by k) y on x.k = y.k",
    "select x.id as id from {T} x inner join t y on x.id = y.id and {B}(y.id) > {c}", "select y.k as k, count(*) as n, max({B}(x.id)) as m from {T} x inner join t y on x.id = y.id group by y.k",
    "select id from {T} where exists (select id from t where {B}(id) > {c})", "select z.k as k, z.n as n from (select k, count(*) as n from (select {B}(id) as i, k from {T}) w group by k) z where z.n > 0", "select case when {B}(id) > {c} then 'a' else 's' end as v, id from {T}",
    "select id from {T} where id > (select min({B}(id)) from t)", "select id, s from {T} where s like 'x%' and {B}(id) < 5 order by id desc",
    "with w as (select {B}(id) as id from {T}) select id from w where id > {c}", "with w as (select id, k from {T}) select k, sum({B}(id)) as a from w group by k", "with w as (select id from {T}), v as (select id from w where {B}(id) > {c}) select id from v",
    "select count(*) as n from (select distinct {B}(k) as k from {T}) x", "select avg({B}(id)) as a, min(k) as b from {T}", "select group_concat({B}(id)) as a from {T}", "select k, lag({B}(id)) over (partition by k order by id) as p, id from {T}",
    "select {B}(1) as a", "select {B}(1) as id union all select 2 as id", "select id, {B}(id) + {B}(k) as a from {T} where {B}(k) >= 0 order by id limit 4",
]
JOINS = "select x.id as id, y9.k as k from {T} x " + " ".join("inner join (select id, %s as k from t where id > %s) y%d on x.id = y%d.id" % ("{B}(k)" if j == 4 else "k", "{c}" if j == 2 else "0", j, j) for j in range(10))
SHAPES += [JOINS, "select id from {T}" + " union all select {B}(id) as id from t where id > {c}" + " union all select k as id from t" * 9, "select x0.id as id from (select {B}(id) as id from {T}) x0 " + " ".join("left join (select id from t where id <> {k}) x%d on x0.id = x%d.id" % (j, j) for j in range(1, 12))]
SINGLE = ["select max({B}(id)) as m from {T}", "select count(*) as n from (select {B}(k) as k from {T} where id > {c}) x", "select count(*) as n from {T} where {B}(id) > {c}", "select {B}(7) as x"]


class Boom:
    n, at, exc = 0, 0, KeyboardInterrupt


def boom(x):
    Boom.n += 1
    if Boom.n == Boom.at:
        raise Boom.exc("injected at call %d" % Boom.at)
    return x


def init_worker(scratch):
    for name, text in (("bad16.json", "[{"), ("g16.sql", "insert into o select bogus16(id) as x from t; insert into late select 1 as x"), ("s16.sql", "insert into late select 1 as x; selec 5")):
        open(name, "w").write(text)
    for d in ("dir16.json", "dir16.csv"):
        os.makedirs(d, exist_ok=True)


def make(rng, i, tier):
    n = rng.choice([5, 5, 7, 7])
    rows = [{"id": j, "k": rng.randint(0, 2), "s": rng.choice(["xa", "xb", "y"])} for j in range(1, n + 1)]
    con = sqlite3.connect(":memory:")
    con.create_function("boom", 1, lambda x: x)
    con.execute("create table t (id int, k int, s text)")
    con.executemany("insert into t values (?,?,?)", [(r["id"], r["k"], r["s"]) for r in rows])

    def ask(sql):
        cur = con.execute(sql)
        names = [c[0] for c in cur.description]
        return [dict(zip(names, r)) for r in cur.fetchall()]

    def query(shapes, src=None):
        text = rng.choice(shapes)
        src = src or rng.choice(["t", "t", "`t16.json`", "`t16.json`" if " in (" in text else "sq.t1"])      # the SQLite driver cannot take a list of values
        p = {"c": rng.randint(0, 3), "k": rng.randint(0, 2), "B": "boom"}
        return text.format(T=src, **p), ask(text.format(T="t", **p))

    steps, uv = [], {"@v": None, "@w": 5}
    outs = 0
    for _ in range(rng.randint(5, 9)):
        parts, expect, setvars, kinds = [], {}, {}, []
        nst = rng.randint(1, 3)
        kind = rng.choice(["ok", "ok", "ok", "split", "compile", "compile", "source", "calc", "interrupt", "interrupt", "interrupt", "interrupt", "output", "file"])
        failpos = rng.randrange(nst) if kind != "ok" else None
        effects = []        # (position, table, rows)
        names = list(uv)
        single = kind in ("ok", "interrupt", "calc", "source", "output")
        for j in range(nst):
            if j == failpos and kind != "interrupt":
                parts.append(None)
                continue
            x = rng.random()
            if x < 0.15 and names:
                v = names.pop(rng.randrange(len(names)))
                sql, ans = query(SINGLE)
                val = list(ans[0].values())[0]
                head, sep, tail = sql.partition(" from ")
                parts.append("%s into %s%s%s" % (head, v, sep, tail) if "from (" not in sql or True else sql)
                effects.append((j, v, val))
                kinds.append("into")
            elif x < 0.27 and names:
                v = names.pop(rng.randrange(len(names)))
                sql, ans = query(SINGLE[:3])
                parts.append("set %s = (%s)" % (v, sql))
                effects.append((j, v, list(ans[0].values())[0]))
                kinds.append("set_expr")
            elif x < 0.33:
                sql, ans = query(SHAPES)
                parts.append("explain insert into o%d %s" % (outs, sql))
                kinds.append("explain")
                effects.append((j, "!o%d" % outs, None))
                outs += 1
            elif x < 0.39:
                k = rng.randint(0, 2)
                outs += 1
                parts.append("insert into d%d select id, k from t; delete from d%d where k = %d" % (outs, outs, k))
                effects.append((j, "d%d" % outs, [{"id": r["id"], "k": r["k"]} for r in rows if r["k"] != k]))
                kinds.append("delete")
            else:
                sql, ans = query(SHAPES)
                o = "o%d" % outs
                outs += 1
                parts.append(("insert into %s %s" % (o, sql)) if not sql.startswith("with") else "insert into %s %s" % (o, sql))
                effects.append((j, o, ans))
        if failpos is not None and kind != "interrupt":
            q, _ = query(SHAPES)
            parts[failpos] = {
                "split": lambda: rng.choice(["select 'abc", "select 1 as x from t where s = \"q", "select `id from t", "/* never closed"]),
                "compile": lambda: rng.choice(["selec 1", "insert into o99 select bogus16(id) as x from t", "select id from from t", "insert into o99 select id from nodb16.t", "insert into o99 select id from t where bogus16(id) > 0", "select (1 as x",
                                               "insert into o99 select x.id from (select bogus16(id) as id from t) x", "insert into o99 select id from t union all select bogus16(id) as id from t", "with w as (select bogus16(id) as id from t) select id into @v from w"]),
                "source": lambda: rng.choice(["insert into o99 select id from `bad16.json`", "insert into o99 select x.id as id from (select id from `bad16.json`) x", "insert into o99 select id from t union all select id from `bad16.json`", "insert into o99 select x.id as id from t x inner join `bad16.json` y on x.id = y.id",
                                              "insert into o99 select id from t where id in (select id from `bad16.json`)", "insert into o99 select id, (select max(id) from `bad16.json`) as m from t", "insert into o99 select id from sq.missing", "select id into @v from `bad16.json`", "set @w = (select count(*) from `bad16.json`)",
                                              "insert into o99 select k, count(*) as n from `bad16.json` group by k", "explain insert into o99 select id from `bad16.json`"]),
                "calc": lambda: rng.choice(["insert into o99 select sum(s) as x from t", "insert into o99 select k, avg(s) as x from t group by k", "insert into o99 select x.a as a from (select sum(s) as a from t) x", "insert into o99 select id from t where id > (select sum(s) from t)",
                                            "insert into o99 select id, (select sum(s) from t) as m from t", "select sum(s) as a into @v from t", "insert into o99 select id from t union all select sum(s) as id from t", "insert into o99 select id, sum(s) over (partition by k) as r from t",
                                            "set @w = (select sum(s) from t)", "insert into o99 select sum(s) as x from `t16.json`", "insert into o99 select lag(id, 'x') over (order by id) as r from t", "insert into o99 select k, sum(s) as n from t group by k having n > 1"]),
                "output": lambda: rng.choice(["insert into `dir16.json` %s", "insert into `dir16.csv` %s", "insert into sq.missing %s", "insert into sq.uniq %s", "insert into sq.uniq %s"]).replace("%s", rng.choice(["select 1 as id from t", "select 1 as id from `t16.json`", "select x.id - x.id + 1 as id from (select id from t) x"])),
                "file": lambda: rng.choice(["execute `nofile16.sql`", "execute `g16.sql`", "execute `s16.sql`"]),
            }[kind]()
        steps.append({"kind": kind, "failpos": failpos, "parts": parts, "effects": effects, "kinds": kinds, "exc": rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "SystemExit", "Stop16"]), "at": rng.choice([1, 1, 2, 3, 4, 6, 9, 13]),
                      "batch": (b16 := rng.choice([0, 0, 0, 2, 3])), "streaming": not b16 and rng.random() < 0.25, "sep": rng.choice(["; ", ";\n"]), "repeat": kind == "ok" and rng.random() < 0.35, "in_file": kind in ("ok", "interrupt", "source", "calc") and rng.random() < 0.15,
                      "sibling": rng.random() < 0.3, "view": rng.random() < 0.1})
    return {"rows": rows, "steps": steps, "growth": i % 30 == 0, "i": i}


class Stop16(BaseException):
    pass


def frozen(v):
    if isinstance(v, dict):
        return {k: frozen(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [frozen(x) for x in v]
    return v if isinstance(v, (str, int, float, bool, type(None))) else id(v)


def run(case, obs):
    rows = case["rows"]
    json.dump(rows, open("t16.json", "w"))
    if os.path.exists("x16.db"):
        os.remove("x16.db")
    con = sqlite3.connect("x16.db")
    con.execute("create table t1 (id int, k int, s text)")
    con.executemany("insert into t1 values (?,?,?)", [(r["id"], r["k"], r["s"]) for r in rows])
    con.execute("create table uniq (id int primary key)")
    con.execute("insert into uniq values (1)")
    con.commit()
    con.close()
    e = eng.engine({"t": rows}, {"databases": [{"name": "sq", "driver": "sqlite", "database": os.path.abspath("x16.db")}]})
    c = e.context()
    sib = e.context()
    Boom.n = Boom.at = 0
    e.use("boom", boom)
    uv = {"@v": None, "@w": 5}
    for k, v in uv.items():
        c.set_variable(k, v)
    base = {"--.t": rows}

    def snapshot(what, allow=()):
        obs.hit("snapshots")
        got = {k: v for k, v in eng.memory_tables(e).items() if k not in allow}
        if set(got) != set(base):
            obs.fail("temporaries", "%s: the session holds %r" % (what, sorted(set(got) ^ set(base))), tables={k: v[:5] for k, v in got.items() if k not in base}, script=script)
            return False
        if not eng.same_rows(got["--.t"], rows, True):
            obs.fail("source", "%s: the source table changed" % what, got=got["--.t"], script=script)
            return False
        return True

    def variables(what):
        got = {k: c.get_variable(k) for k in uv}
        if got != uv or any(e.get_variable(k) is not None or sib.get_variable(k) is not None for k in uv):
            obs.fail("variables", "%s: variables are %r, should be %r" % (what, got, uv), script=script)
            return False
        extra = {k for k in c.executor.env_variables if k not in uv and k not in ("@batch", "@streaming")}
        if extra:
            obs.fail("variables", "%s: the session holds variables %r" % (what, sorted(extra)), script=script)
            return False
        return True

    for st in case["steps"]:
        kind = st["kind"]
        script = st["sep"].join(st["parts"])
        obs.hit("scripts")
        for k in st["kinds"]:
            obs.hit(k)
        c.set_variable("@batch", st["batch"])
        c.set_variable("@streaming", st["streaming"])
        if st["batch"]:
            obs.hit("batch")
        if st["streaming"]:
            obs.hit("streaming")
        if st["view"]:
            obs.hit("view")
            c.execute("set @config.databases.sq.virtual_views.vv16 = 'select id from t1'")
        config = frozen(c.executor.session_config.get())
        run_sql = script
        if st["in_file"]:
            open("f16.sql", "w").write(script + ";")
            run_sql = "execute `f16.sql`"
            obs.hit("script_file")
        Boom.n, Boom.at, Boom.exc = 0, st["at"] if kind == "interrupt" else 0, {"KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "Stop16": Stop16}[st["exc"]]
        err = None
        try:
            c.execute(run_sql)
        except BaseException as x:
            if type(x).__name__ == "CaseTimeout":
                raise
            err = x
        calls, Boom.at = Boom.n, 0
        interrupted = kind == "interrupt" and calls >= st["at"]
        if kind == "interrupt" and not interrupted:
            kind = "ok"
        if (err is not None) != (kind != "ok"):
            return obs.fail("error", "the script should %s but %s" % ("succeed" if kind == "ok" else "fail (%s)" % kind, "raised %r" % err if err else "returned normally"), script=script)
        if interrupted:
            obs.hit("fail:interrupt")
            if not isinstance(err, Boom.exc):
                return obs.fail("error", "the caller got %r instead of %s" % (err, Boom.exc.__name__), script=script)
            if st["at"] > 1:
                obs.hit("interrupted_after_rows")
        elif err is not None:
            obs.hit("fail:" + kind)
        obs.hit("ok" if err is None else "failed")
        obs.nontrivial(kind, script, st["at"], st["batch"], st["streaming"], type(err).__name__)
        # effects of the statements before the failure, none of those after it
        tables = {k: v for k, v in eng.memory_tables(e).items()}
        seen = set()
        local = st["in_file"]
        failed_at = None
        if err is not None:
            failed_at = -1 if kind in ("split", "compile") or (kind == "file") and "nofile" not in script and False else st["failpos"]
            if kind == "file":
                failed_at = -1      # the file is read and compiled with the script
        for j, name, want in st["effects"]:
            done = err is None or (failed_at is not None and j < failed_at)
            unknown = interrupted
            if name.startswith("@"):
                if local:
                    continue
                if unknown:
                    got = c.get_variable(name)
                    if not (eng.same_rows([{"x": got}], [{"x": want}], True) or eng.same_rows([{"x": got}], [{"x": uv[name]}], True)):
                        return obs.fail("variables", "%s is %r, neither the value before (%r) nor the one of its statement (%r)" % (name, got, uv[name], want), script=script)
                    uv[name] = got
                elif done:
                    obs.hit("effects_before", err is not None)
                    if not eng.same_rows([{"x": c.get_variable(name)}], [{"x": want}], True):
                        return obs.fail("variables", "%s is %r after its statement, should be %r" % (name, c.get_variable(name), want), script=script)
                    uv[name] = c.get_variable(name)
                continue
            key = "--." + name.lstrip("!")
            seen.add(key)
            got = tables.get(key)
            if name.startswith("!") or unknown:
                continue
            if done:
                if not eng.same_rows(got or [], want, False):
                    return obs.fail("answer" if err is None else "effects", "statement %d: wrong rows" % j, script=script, got=got, want=want, failed_at=failed_at)
                obs.hit("effects_before", err is not None)
            elif got:
                return obs.fail("ran-after-failure", "a statement after the failed one ran: %s" % name, script=script, got=got)
        if interrupted:
            # in order: complete tables, then the one that was being written, then nothing
            order = [(tables.get("--." + n), w) for _, n, w in st["effects"] if not n.startswith(("@", "!"))]
            full = True
            for got, want in order:
                if got and not full:
                    return obs.fail("ran-after-failure", "rows of a statement after the interrupted one", script=script, tables=order)
                full = full and eng.same_rows(got or [], want, False)
        if "--.late" in tables:
            return obs.fail("ran-after-failure", "a statement after the failure ran", script=script)
        for key in seen | {"--.o99"}:
            e.pop_memory_datas(key[3:])
        if not snapshot("after %s (%s)" % (kind, type(err).__name__)) or not variables("after %s" % kind):
            return
        if frozen(c.executor.session_config.get()) != config:
            return obs.fail("config", "the configuration of the session changed", script=script)
        # still usable: a statement answers exactly what it should, in this session and its sibling
        for s in [c] + ([sib] if st["sibling"] else []):
            r = eng.attempt(s.execute, "insert into pr select count(*) as n, max(boom(id)) as m from t")
            got = e.pop_memory_datas("pr")
            if isinstance(r, eng.Raised) or got != [{"n": len(rows), "m": len(rows)}]:
                return obs.fail("unusable", "after the script a simple query gives %r" % ((r, got),), script=script)
            if s is sib:
                obs.hit("sibling")
        if not snapshot("after the following statement"):
            return
        if st["repeat"] and not st["in_file"]:
            obs.hit("repeat")
            for _ in range(3):
                r = eng.attempt(c.execute, script)
                if isinstance(r, eng.Raised):
                    return obs.fail("repeat", "the repeated script raised %s" % r, script=script)
                for j, name, want in st["effects"]:
                    if name.startswith("!"):
                        continue
                    if name.startswith("@"):
                        if not eng.same_rows([{"x": c.get_variable(name)}], [{"x": want}], True):
                            return obs.fail("repeat", "%s is %r when the script is repeated" % (name, c.get_variable(name)), script=script)
                        continue
                    got = e.pop_memory_datas(name)
                    if not eng.same_rows(got, want, False):
                        return obs.fail("repeat", "the repeated script answers differently", script=script, got=got, want=want)
                for key in seen:
                    e.pop_memory_datas(key[3:])
                if not snapshot("after a repetition"):
                    return
    if case["growth"]:
        growth(case, obs, e, c, uv)
    obs.sample({"scripts": [s["sep"].join(s["parts"]) for s in case["steps"][:3]]})
    e.close()


def growth(case, obs, e, c, uv):
    """Blocks and file descriptors in use must not grow with the number of repetitions."""
    import gc
    obs.hit("growth")
    e.push_memory_datas("big", [{"id": j, "k": j % 5, "s": "row %d" % j} for j in range(150)])
    st = case["steps"][case["i"] // 30 % len(case["steps"])]
    script = st["sep"].join(st["parts"]).replace(" t ", " big ").replace("from t)", "from big)")
    if script.endswith("from t"):
        script = script[:-1] + "big"
    names = [n.lstrip("!") for _, n, _ in st["effects"] if not n.startswith("@")] + ["o99"]

    def go(n):
        for _ in range(n):
            Boom.n, Boom.at = 0, st["at"] if st["kind"] == "interrupt" else 0
            try:
                c.execute(script)
            except BaseException as x:
                if type(x).__name__ == "CaseTimeout":
                    raise
            for k in names:
                e.pop_memory_datas(k)
        Boom.at = 0
        gc.collect()
        return sys.getallocatedblocks(), len(os.listdir("/proc/self/fd"))
    go(6)
    a, b, d = go(8), go(8), go(8)
    per = [(b[0] - a[0]) / 8, (d[0] - b[0]) / 8]
    obs.nontrivial("growth", script, round(min(per)))
    if min(per) > 120 or (b[1] > a[1] and d[1] > b[1] and d[1] - a[1] >= 8):
        obs.fail("growth", "each repetition keeps %r blocks, file descriptors %r" % (per, (a[1], b[1], d[1])), script=script)
