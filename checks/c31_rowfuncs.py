"""C31: functions of the row stream and of the moment: row_index, row_last, pyeval, type predicates, time windows, current time, identifiers."""
import datetime, decimal, math, os, subprocess, sys, uuid as uuid_
from zoneinfo import ZoneInfo
from vlib import eng, harness

META = {
    "id": "C31", "sizes": {"quick": 9000, "thorough": 120000}, "chunk": 60,
    "rule": "a generated select with the functions ran on the engine over a table with rows, and its answer was compared with a direct model of each function over the observed stream of rows",
    "required": {"stream": 1200, "stream_rows": 4000, "batch": 400, "again": 300, "pyeval": 800, "pyeval_error": 100, "pyeval_where": 100, "module": 60, "types": 800, "predicates": 20000, "window": 700, "window_group": 100,
                 "ids": 300, "now": 300, "zone": 250, "disabled": 6, "split": 150},
    "technique": "runtime monitoring: direct reference model of the function values over the observed stream of rows; bracketing of the clock around the execution; uniqueness of identifiers over all rows seen",
    "note": "row_index/row_last with an outer ORDER BY on computed columns (numbered before the sort), day windows other than 1d and week windows are not generated; list values are judged element by element by the predicates and are not generated.",
}
ZONES = ["UTC", "Asia/Shanghai", "America/New_York", "Asia/Kolkata", "Pacific/Auckland", "Pacific/Kiritimati", "Etc/GMT+12"]
IDS = set()


# ---------------------------------------------------------------- stream of rows
def row_exprs(rng):
    """(sql, f(rows) -> values) where rows is the stream the select reads."""
    def last(col):
        return lambda rows: [None] + [r[col] for r in rows[:-1]]

    def index(rows):
        return list(range(1, len(rows) + 1))
    k = rng.randint(1, 9)
    if k == 1:
        return "row_index()", index
    if k == 2:
        n = rng.randint(1, 9)
        return "row_index() + %d" % n, lambda rows: [i + n for i in index(rows)]
    if k == 3:
        n = rng.randint(2, 4)
        return "row_index() %% %d" % n, lambda rows: [i % n for i in index(rows)]
    if k == 4:
        return "if(row_index() = 1, 'first', s)", lambda rows: ["first" if i == 1 else r["s"] for i, r in zip(index(rows), rows)]
    if k == 5:
        c = rng.choice(["a", "s", "id"])
        return "row_last(%s)" % c, last(c)
    if k == 6:
        return "id - row_last(id)", lambda rows: [None if p is None else r["id"] - p for p, r in zip(last("id")(rows), rows)]
    if k == 7:
        return "id * 10 + row_index()", lambda rows: [r["id"] * 10 + i for i, r in zip(index(rows), rows)]
    if k == 8:
        return "row_last(id + 1)", lambda rows: [None] + [r["id"] + 1 for r in rows[:-1]]
    return "row_last(id) is null", lambda rows: [i == 1 for i in index(rows)]


def make_stream(rng):
    n = rng.choice([0, 1, 2, 3, 5, 8, 13])
    t = [{"id": j + 1, "a": rng.choice([None, 0, 1, 2, 5, -3]), "s": rng.choice(["x", "y", "", "z z", None])} for j in range(n)]
    if rng.random() < 0.4:
        rng.shuffle(t)
    seed = rng.randint(0, 10 ** 9)
    src = rng.choice(["t", "t", "where", "where", "sub", "sub_order", "union", "cte", "join"])
    return {"case": "stream", "t": t, "seed": seed, "src": src, "k": rng.randint(0, 7), "limit": rng.choice([None, None, None, (2, 0), (3, 1), (100, 0), (1, 2)]),
            "ctx": rng.choice(["top", "top", "outer", "union", "insert"]), "st": rng.choice([{}, {}, {"@batch": rng.randint(1, 4)}, {"@streaming": 1}, {"@insert_batch": 2}, {"@join_batch": 1}]),
            "again": rng.random() < 0.3}


def run_stream(c, obs):
    import random
    rng = random.Random(c["seed"])
    exprs = [row_exprs(rng) for _ in range(rng.randint(1, 4))]
    rows, k = [dict(r) for r in c["t"]], c["k"]
    src = c["src"]
    q = ""
    if src == "t":
        frm = "t"
    elif src == "where":
        w, f = rng.choice([("id > %d" % k, lambda r: r["id"] > k), ("id %% 2 = %d" % (k % 2), lambda r: r["id"] % 2 == k % 2), ("s = 'x' OR id < %d" % k, lambda r: r["s"] == "x" or r["id"] < k),
                           ("a IS NOT NULL", lambda r: r["a"] is not None)])
        frm, rows = "t WHERE " + w, [r for r in rows if f(r)]
    elif src == "sub":
        frm, rows = "(SELECT id, a, s FROM t WHERE id <> %d) z" % k, [r for r in rows if r["id"] != k]
    elif src == "sub_order":
        frm, rows = "(SELECT id, a, s FROM t ORDER BY id DESC) z", sorted(rows, key=lambda r: -r["id"])
    elif src == "union":
        frm, rows = "(SELECT id, a, s FROM t UNION ALL SELECT id, a, s FROM t WHERE id < %d) z" % k, rows + [r for r in rows if r["id"] < k]
    elif src == "cte":
        q, frm, rows = "WITH z AS (SELECT id, a, s FROM t WHERE id >= %d) " % k, "z", [r for r in rows if r["id"] >= k]
    else:
        frm = "(SELECT y.id, y.a, y.s, m.w FROM t y LEFT JOIN m m ON y.id = m.id) z"
    sql = "SELECT %s, id FROM %s" % (", ".join("%s AS c%d" % (x, j) for j, (x, _) in enumerate(exprs)), frm)
    vals = [f(rows) for _, f in exprs]
    want = [dict({"c%d" % j: v[i] for j, v in enumerate(vals)}, id=r["id"]) for i, r in enumerate(rows)]
    if c["limit"]:
        n, o = c["limit"]
        sql += " LIMIT %d" % n + (" OFFSET %d" % o if o else "")
        want = want[o:o + n]
    if c["ctx"] == "outer":
        sql, want = "SELECT v.c0, v.id FROM (%s) v WHERE v.id > 2" % sql, [{"c0": r["c0"], "id": r["id"]} for r in want if r["id"] > 2]
    elif c["ctx"] == "union" and not c["limit"]:
        sql, want = "%s UNION ALL %s" % (sql, sql), want + want
    e = eng.engine({"t": c["t"], "m": [{"id": j, "w": j * 2} for j in range(1, 5)]})
    for s, v in c["st"].items():
        e.set_variable(s, v)
    for turn in range(2 if c["again"] else 1):
        if c["ctx"] == "insert":
            got = eng.attempt(e.execute, q + "INSERT INTO keep " + sql)
            if not isinstance(got, eng.Raised):
                got = eng.attempt(e.pop_memory_datas, "keep") if want else []
        elif q:
            got = eng.attempt(e.execute, q + "INSERT INTO vout " + sql)
            if not isinstance(got, eng.Raised):
                got = eng.attempt(e.pop_memory_datas, "vout")
        else:
            got = eng.attempt(eng.query, e, sql)
        if isinstance(got, eng.Raised) or not eng.same_rows(got or [], want, True):
            return obs.fail("stream", "answer %r, the stream of rows gives %r%s" % (got if isinstance(got, eng.Raised) else (got or [])[:6], want[:6], " (second run)" if turn else ""),
                            sql=q + sql, table=c["t"], settings=c["st"])
        obs.hit("again", turn)
    obs.hit("stream")
    obs.hit("stream_rows", len(want))
    obs.hit("batch", bool(c["st"]))
    if want:
        obs.nontrivial(sql, repr(c["t"]))
        obs.sample("%s => %r" % (sql[:120], want[:2]))


# ---------------------------------------------------------------- pyeval
PY = ["args[0] + args[1]", "args[0] * 2", "str(args[0]) + \"|\" + str(args[1])", "[args[1], args[0]]", "{\"k\": args[0]}", "len(args)", "math.floor(2.7) + args[0]", "json.loads(\"[1, 2]\")", "None",
      "args[0] > args[1]", "\"#{x}\" + str(args[0])", "\"a;b -- c\" * 2", "\"/* */\"", "[i * args[0] for i in range(3)]", "max(args)", "hashlib.md5(str(args[0]).encode()).hexdigest()",
      "re.sub(\"[0-9]\", \"d\", str(args[0]))", "(lambda x: x + 1)(args[1])", "sum(a for a in args)", "args[5]", "1 / (args[0] - args[0])", "undefined_name", "1 +", "datetime.date(2024, 2, 29)", "base64.b64encode(b\"a\")",
      "args[0] if args[0] else \"none\"", "args[-1]", "\"it\" + chr(39) + \"s\"", "\"\\u00e9\"", "c31mod.twice(args[0])", "True", "1.5", "\"\"", "[]", "0"]


def twice(x):
    return [x, x]


def make_pyeval(rng):
    t = [{"id": j + 1, "a": rng.choice([0, 1, 2, 7, -3, None, 2.5])} for j in range(rng.randint(1, 5))]
    return {"case": "pyeval", "t": t, "e": [rng.choice(PY) for _ in range(rng.randint(1, 3))], "n": rng.choice([1, 3, 10]), "where": rng.random() < 0.2, "how": rng.choice(["plain", "plain", "sub", "concat", "nested"])}


def peval(text, args):
    import base64, hashlib, json, re
    try:
        return eval(text, {"math": math, "json": json, "hashlib": hashlib, "re": re, "base64": base64, "datetime": datetime, "c31mod": sys.modules[__name__]}, {"args": args})
    except Exception:
        return None


def lit(text):
    return "'" + text.replace("\\", "\\\\").replace("'", "''") + "'"


def run_pyeval(c, obs):
    from syncanysql.calculaters.pyeval_calculater import register_pyeval_module
    register_pyeval_module("c31mod", sys.modules[__name__])
    texts = c["e"]
    cols = ["pyeval(%s, a, %d) AS c%d" % (lit(x), c["n"], j) for j, x in enumerate(texts)]
    want = [dict({"c%d" % j: peval(x, (r["a"], c["n"])) for j, x in enumerate(texts)}, id=r["id"]) for r in c["t"]]
    obs.hit("pyeval_error", sum(peval(x, (r["a"], c["n"])) is None for x in texts for r in c["t"]))
    obs.hit("module", sum("c31mod" in x for x in texts))
    sql = "SELECT id, %s FROM t" % ", ".join(cols)
    if c["where"]:
        sql += " WHERE pyeval('args[0] % 2 == 1', id)"
        want = [r for r in want if r["id"] % 2 == 1]
        obs.hit("pyeval_where")
    if c["how"] == "sub":
        sql = "SELECT z.c0, z.id FROM (%s) z" % sql
        want = [{"c0": r["c0"], "id": r["id"]} for r in want]
    elif c["how"] == "nested":
        sql = "SELECT pyeval('args[0] + 1', pyeval('args[0] * 2', id)) AS v, id FROM t"
        want = [{"v": r["id"] * 2 + 1, "id": r["id"]} for r in c["t"]]
    elif c["how"] == "concat":
        sql = "SELECT concat(pyeval('\"p\"', 1), id) AS v, if(pyeval('True'), id, 0) AS w, coalesce(pyeval('oops'), 'x') AS u FROM t"
        want = [{"v": "p%d" % r["id"], "w": r["id"], "u": "x"} for r in c["t"]]
    got = eng.attempt(eng.query, eng.engine({"t": c["t"]}), sql)
    if isinstance(got, eng.Raised) or not eng.same_rows(got or [], want, True):
        return obs.fail("pyeval", "answer %r, evaluating the expressions gives %r" % (got if isinstance(got, eng.Raised) else (got or [])[:6], want[:6]), sql=sql, table=c["t"])
    obs.hit("pyeval")
    obs.nontrivial(sql, repr(c["t"]))


# ---------------------------------------------------------------- types
def values():
    from bson import ObjectId
    return [None, 0, 1, -5, 2 ** 70, 1.5, 0.0, float("inf"), decimal.Decimal("1.5"), "", "a", "1", "2024-01-01", b"", b"ab", True, False, {}, {"a": 1}, set(), {1, 2}, ObjectId("6affd7c9f9fe8b47cdcce98a"),
            uuid_.UUID(int=5), datetime.datetime(2024, 1, 2, 3, 4, 5), datetime.date(2024, 1, 2), datetime.time(3, 4, 5)]


def predicates(v):
    from bson import ObjectId
    return {"is_null": v is None, "is_int": isinstance(v, int), "is_float": isinstance(v, float), "is_decimal": isinstance(v, decimal.Decimal),
            "is_number": isinstance(v, (int, float, decimal.Decimal)), "is_string": isinstance(v, str), "is_bytes": isinstance(v, bytes), "is_bool": isinstance(v, bool),
            "is_set": isinstance(v, set), "is_map": isinstance(v, dict), "is_objectid": isinstance(v, ObjectId), "is_uuid": isinstance(v, uuid_.UUID),
            "is_datetime": isinstance(v, datetime.datetime), "is_date": isinstance(v, datetime.date), "is_time": isinstance(v, datetime.time)}


def make_types(rng):
    n = len(values())
    return {"case": "types", "vs": [rng.randrange(n) for _ in range(rng.randint(1, 6))], "f": rng.sample(["is_null", "is_int", "is_float", "is_decimal", "is_number", "is_string", "is_bytes", "is_bool", "is_set", "is_map",
            "is_objectid", "is_uuid", "is_datetime", "is_date", "is_time"], rng.randint(1, 6)), "how": rng.choice(["select", "select", "where", "if", "group", "sub"])}


def run_types(c, obs):
    vs = values()
    t = [{"id": j, "x": vs[v]} for j, v in enumerate(c["vs"])]
    fs = c["f"]
    p = [predicates(r["x"]) for r in t]
    if c["how"] == "select":
        sql, want = "SELECT id, %s FROM t" % ", ".join("%s(x) AS c_%s" % (f, f) for f in fs), [dict({"c_" + f: b[f] for f in fs}, id=r["id"]) for r, b in zip(t, p)]
    elif c["how"] == "where":
        sql, want = "SELECT id FROM t WHERE %s(x)" % fs[0], [{"id": r["id"]} for r, b in zip(t, p) if b[fs[0]]]
        if len(fs) > 1:
            sql, want = "SELECT id FROM t WHERE NOT %s(x) AND (%s(x) OR id = 1)" % (fs[0], fs[1]), [{"id": r["id"]} for r, b in zip(t, p) if not b[fs[0]] and (b[fs[1]] or r["id"] == 1)]
    elif c["how"] == "if":
        sql, want = "SELECT id, if(%s(x), 'yes', 'no') AS v FROM t" % fs[0], [{"id": r["id"], "v": "yes" if b[fs[0]] else "no"} for r, b in zip(t, p)]
    elif c["how"] == "group":
        g = {}
        for b in p:
            g[b[fs[0]]] = g.get(b[fs[0]], 0) + 1
        sql, want = "SELECT %s(x) AS k, count(*) AS n FROM t GROUP BY k" % fs[0], [{"k": k, "n": n} for k, n in g.items()]
    else:
        sql, want = "SELECT z.k FROM (SELECT %s(x) AS k, id FROM t) z WHERE z.k" % fs[0], [{"k": True} for b in p if b[fs[0]]]
    got = eng.attempt(eng.query, eng.engine({"t": t}), sql)
    if isinstance(got, eng.Raised) or not eng.same_rows(got or [], want, True):
        return obs.fail("types", "answer %r, the types of the values give %r" % (got if isinstance(got, eng.Raised) else (got or [])[:6], want[:6]), sql=sql, table=t)
    obs.hit("types")
    obs.hit("predicates", len(t) * len(fs) * 2)
    obs.nontrivial(sql, repr(t))


# ---------------------------------------------------------------- time windows
def make_window(rng):
    unit = rng.choice("dHMS")
    n = 1 if unit == "d" else rng.choice([1, 2, 3, 4, 6, 12] if unit == "H" else [1, 2, 5, 10, 15, 30])
    ts = [datetime.datetime(2024, rng.choice([1, 2, 12]), rng.choice([1, 28, 29]) if True else 1, rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)).strftime("%Y-%m-%d %H:%M:%S") for _ in range(rng.randint(1, 6))]
    return {"case": "window", "p": "%d%s" % (n, unit), "n": n, "u": unit, "ts": ts, "off": rng.choice([None, None, 0, 1, -1, 3]), "typed": rng.random() < 0.5, "how": rng.choice(["select", "select", "group", "where"]),
            "zone": rng.choice([None, None] + ZONES)}


def run_window(c, obs):
    def w(s):
        d = datetime.datetime.strptime(s, "%Y-%m-%d %H:%M:%S")
        u, n = c["u"], c["n"]
        if u == "d":
            d, step = d.replace(hour=0, minute=0, second=0), datetime.timedelta(days=1)
        elif u == "H":
            d, step = d.replace(hour=d.hour - d.hour % n, minute=0, second=0), datetime.timedelta(hours=n)
        elif u == "M":
            d, step = d.replace(minute=d.minute - d.minute % n, second=0), datetime.timedelta(minutes=n)
        else:
            d, step = d.replace(second=d.second - d.second % n), datetime.timedelta(seconds=n)
        return d + step * (c["off"] or 0)
    t = [{"id": j, "s": s} for j, s in enumerate(c["ts"])]
    x = "time_window('%s', %s%s)" % (c["p"], "datetime(s)" if c["typed"] else "s", "" if c["off"] is None else ", %d" % c["off"])
    if c["how"] == "select":
        sql, want = "SELECT id, %s AS w FROM t" % x, [{"id": r["id"], "w": w(r["s"])} for r in t]
    elif c["how"] == "where":
        sql, want = "SELECT id FROM t WHERE %s = %s" % (x, x.replace("(s)", "('%s')" % c["ts"][0]).replace(", s", ", '%s'" % c["ts"][0])), [{"id": r["id"]} for r in t if w(r["s"]) == w(c["ts"][0])]
    else:
        g = {}
        for r in t:
            g[w(r["s"])] = g.get(w(r["s"]), 0) + 1
        sql, want = "SELECT %s AS w, count(*) AS n FROM t GROUP BY w" % x, [{"w": k, "n": n} for k, n in g.items()]
        obs.hit("window_group")
    got = zoned(c["zone"], lambda e: eng.query(e, sql), {"t": t})
    if isinstance(got, eng.Raised) or not eng.same_rows(got or [], want, True):
        return obs.fail("window", "answer %r, the windows are %r" % (got if isinstance(got, eng.Raised) else (got or [])[:6], want[:6]), sql=sql, table=t, zone=c["zone"])
    obs.hit("window")
    obs.hit("zone", bool(c["zone"]))
    obs.nontrivial(sql, repr(t), c["zone"])


def zoned(zone, f, tables):
    """Run with the configured time zone, which is process-wide, and restore it."""
    if not zone:
        return eng.attempt(f, eng.engine(tables))
    try:
        return eng.attempt(f, eng.engine(tables, config={"timezone": zone}))
    finally:
        eng.engine({}, config={"timezone": "UTC"})


# ---------------------------------------------------------------- now and identifiers
NOW = {"now()": ("local", "dt"), "sysdate()": ("local", "dt"), "current_timestamp": ("local", "dt"), "current_timestamp()": ("local", "dt"), "curdate()": ("local", "d"), "current_date": ("local", "d"),
       "current_date()": ("local", "d"), "currentdate()": ("local", "d"), "curtime()": ("local", "t"), "current_time": ("local", "t"), "utc_timestamp()": ("utc", "dt"), "utc_date()": ("utc", "d"), "utc_time()": ("utc", "t"),
       "unix_timestamp()": ("utc", "unix")}


def make_now(rng):
    return {"case": "now", "f": rng.sample(sorted(NOW), rng.randint(1, 4)), "zone": rng.choice(ZONES), "src": rng.choice(["none", "t", "sub"])}


def run_now(c, obs):
    sql = "SELECT " + ", ".join("%s AS c%d" % (f, j) for j, f in enumerate(c["f"]))
    sql += {"none": "", "t": " FROM t", "sub": " FROM (SELECT id FROM t) z"}[c["src"]]
    n = 1 if c["src"] == "none" else 3
    t0 = datetime.datetime.now(datetime.timezone.utc)
    got = zoned(c["zone"], lambda e: eng.query(e, sql), {"t": [{"id": 1}, {"id": 2}, {"id": 3}]})
    t1 = datetime.datetime.now(datetime.timezone.utc)
    bad = isinstance(got, eng.Raised) or len(got) != n
    if not bad:
        for r in got:
            for j, f in enumerate(c["f"]):
                zone, kind = NOW[f]
                z = ZoneInfo(c["zone"]) if zone == "local" else datetime.timezone.utc
                v, a, b = r.get("c%d" % j), t0.astimezone(z), t1.astimezone(z)
                if kind == "dt":
                    ok = type(v) is datetime.datetime and a.replace(tzinfo=None, microsecond=0) <= v.replace(tzinfo=None) <= b.replace(tzinfo=None)
                elif kind == "d":
                    ok = type(v) is datetime.date and a.date() <= v <= b.date()
                elif kind == "t":
                    ok = type(v) is datetime.time and (a.time().replace(microsecond=0) <= v.replace(tzinfo=None) <= b.time() or a.date() != b.date())
                else:
                    ok = isinstance(v, (int, float)) and int(a.timestamp()) <= v <= b.timestamp() + 1
                if not ok:
                    return obs.fail("now", "%s gave %r between %s and %s" % (f, v, a, b), sql=sql, zone=c["zone"])
    if bad:
        return obs.fail("now", "answer %r" % (got,), sql=sql, zone=c["zone"])
    obs.hit("now")
    obs.hit("zone")
    obs.nontrivial(sql, c["zone"])


def run_ids(c, obs):
    t = [{"id": j} for j in range(c["n"])]
    sql = "SELECT id, " + ", ".join("%s() AS c%d" % (f, j) for j, f in enumerate(c["f"])) + " FROM " + c["src"]
    e = eng.engine({"t": t})
    for _ in range(c["times"]):
        got = eng.attempt(eng.query, e, sql)
        if isinstance(got, eng.Raised) or len(got) != len(t):
            return obs.fail("ids", "answer %r" % (got,), sql=sql)
        for r in got:
            for j, f in enumerate(c["f"]):
                v = r["c%d" % j]
                if v is None or (f, str(v)) in IDS:
                    return obs.fail("ids", "%s() gave %r %s" % (f, v, "again" if v is not None else ""), sql=sql)
                IDS.add((f, str(v)))
    obs.hit("ids")
    obs.nontrivial(sql, c["n"])


def run_split(c, obs):
    t = [{"id": j, "s": s} for j, s in enumerate(c["s"])]
    sql = "SELECT id, split(s, %s) AS v FROM t" % lit(c["sep"])
    want = [{"id": r["id"], "v": r["s"].split(c["sep"])} for r in t]
    got = eng.attempt(eng.query, eng.engine({"t": t}), sql)
    if isinstance(got, eng.Raised) or not eng.same_rows(got, want, True):
        return obs.fail("split", "answer %r, expected %r" % (got, want[:6]), sql=sql, table=t)
    obs.hit("split")
    obs.nontrivial(sql, repr(t))


PROG = """import sys, logging
sys.path.insert(0, %r); sys.argv = ["x"]; logging.disable(50)
from syncanysql import ScriptEngine
e = ScriptEngine(); e.setup()
e.push_memory_datas("t", [{"id": 1}])
try:
    e.execute(%r)
    print("ROWS", e.pop_memory_datas("o"))
except Exception as x:
    print("RAISED", type(x).__name__)
"""


def run_disabled(c, obs):
    d = harness.scratch()
    mark = os.path.join(d, "c31_mark_%d" % os.getpid())
    if os.path.exists(mark):
        os.remove(mark)
    text = "INSERT INTO o SELECT id, pyeval('open(\"%s\", \"w\").write(str(args[0]))', id) AS v FROM t" % mark
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", HOME=d)
    env.pop("SYNCANY_PYEVAL_DISABLED", None)
    if c["off"]:
        env["SYNCANY_PYEVAL_DISABLED"] = c["off"]
    p = subprocess.run([sys.executable, "-c", PROG % (harness.REPO, text)], capture_output=True, text=True, cwd=d, env=env, timeout=120)
    made = os.path.exists(mark)
    if made:
        os.remove(mark)
    out = p.stdout.strip().splitlines()[-1:] or [p.stderr[-300:]]
    if made != (not c["off"]) or out[0].startswith("RAISED") == (not c["off"]):
        return obs.fail("disabled", "with SYNCANY_PYEVAL_DISABLED=%r the expression %s evaluated and the engine answered %r" % (c["off"], "was" if made else "was not", out[0]), env=c["off"])
    obs.hit("disabled")


def make(rng, i, tier):
    x = rng.random()
    if x < 0.25:
        return make_stream(rng)
    if x < 0.42:
        return make_pyeval(rng)
    if x < 0.68:
        return make_types(rng)
    if x < 0.82:
        return make_window(rng)
    if x < 0.89:
        return make_now(rng)
    if x < 0.95:
        return {"case": "ids", "f": rng.sample(["uuid", "objectid", "snowflakeid"], rng.randint(1, 3)), "n": rng.randint(1, 20), "src": rng.choice(["t", "(SELECT id FROM t) z"]), "times": rng.randint(1, 2)}
    if x < 0.998:
        return {"case": "split", "sep": rng.choice([",", ";", " ", "ab", "'", "%", "--", "|", "é"]), "s": ["".join(rng.choice(["a", "b", "ab", ",", ";", " ", "'", "%", "-", "|", "é"]) for _ in range(rng.randint(0, 8))) for _ in range(rng.randint(1, 4))]}
    return {"case": "disabled", "off": rng.choice(["1", "1", None, "true"])}


def run(c, obs):
    globals()["run_" + c["case"]](c, obs)
