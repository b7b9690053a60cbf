"""C27: tables of an SQL database, raw SQL blocks and virtual views answer exactly as the stored data, the conditions and the parameters say.

Real SQLite databases are filled with hostile values; the engine runs generated statements over them (alone, joined with each other and with
memory tables, in subqueries, unions, raw blocks and views with parameters).  The oracle runs the same statement, with every literal as a bound
parameter, on an independent SQLite connection over a copy of all tables; results are compared with their types, the stored data after every
step.
"""
import json, os, random, sqlite3
from vlib import eng, harness

META = {
    "id": "C27", "sizes": {"quick": 5000, "thorough": 90000}, "chunk": 30,
    "rule": "a statement over database tables, raw SQL blocks or views ran over at least one row, and its rows (or the stored rows afterwards) were compared with those of an independent SQLite connection given the literals as bound parameters",
    "required": {"queries": 5000, "select": 1000, "group": 180, "join": 350, "sub": 350, "union": 50, "raw": 550, "view": 800, "names": 170, "insert": 700, "delete": 300, "keyed": 150, "update": 150, "hostile": 10000, "variable": 500, "default": 400, "override": 600, "batched": 500, "two_databases": 90, "memory_join": 180, "raw_quote": 70, "raw_same_name": 50, "view_set": 200, "view_config": 200, "null": 8000, "rows": 6000},
    "technique": "runtime monitoring: generated statements over real SQLite databases; rows, value types and stored data compared with an independent SQLite connection running the same statement with bound parameters",
    "note": "SQLite stands for the configured SQL databases (no server is available offline). The installed driver writes IN lists of several values as invalid SQL; the check repairs that one method of the driver at run time, so that IN conditions and joins can be observed. View parameters of the `in` kind, `%s` inside raw text and DELETE without conditions are not supported by the driver and not generated.",
}

HOSTILE = ["x'y", 'a"b', "%", "_", "a?b", "\\", "\\n", "a;b", "--c", "/*c*/", "é", "日本", "'; DROP TABLE t1; --", "null", "NULL", "1", "a`b", ":p", "@v", "{}", "%(a)s", "line\nbreak", "tab\t", "", " x ", "0x1", "1e5", "true", "a''b",
           "' or '1'='1", "#c", "a b", "ab", "AB", "Z", "(", ")", "select 1", "a=b", "$1", "%d", "2024-03-05", "\u00a0", "'", "''", "%s", "a%sb", "#{k:1}", "\r\n", "b'1'", "\\'", "\"", "endraw", "12:30", "a:b:c", "http://h:80/x?y=1", ":", "x:"]
BIGS = [0, 1, 2, 3, -1, 5, 10, 2 ** 31, -2 ** 63, 2 ** 63 - 1, 2 ** 53 + 1]
REALS = [0.5, -1.25, 3.0, 0.1, 1e300, -0.0001, 2.5]


def init_worker(scratch):
    from syncany.database import sqlite as drv
    for cls in (drv.SqliteQueryBuilder, drv.SqliteUpdateBuilder, drv.SqliteDeleteBuilder):
        def filter_in(self, key, value):
            self.query.append('`' + key + "` in (" + ",".join("?" * len(value)) + ")")
            self.query_values.extend(value)
        cls.filter_in = filter_in
    # format_query pairs query[i] with query_values[i]: an IN list keeps its values together
    drv.SqliteQueryBuilder.filter_in = filter_in


class P:
    """A piece of SQL: text in which \\x01 stands for the next literal of vals."""

    def __init__(self, text, vals=()):
        self.text, self.vals = text, list(vals)

    def __add__(self, o):
        o = o if isinstance(o, P) else P(o)
        return P(self.text + o.text, self.vals + o.vals)

    def __radd__(self, o):
        return P(o + self.text, self.vals)


def V(v):
    return P("\x01", [v])


def J(sep, ps):
    ps = [p if isinstance(p, P) else P(p) for p in ps]
    return P(sep.join(p.text for p in ps), [v for p in ps for v in p.vals])


def F(fmt, *ps):
    parts, out = fmt.split("%s"), P("")
    for i, x in enumerate(parts):
        out = out + x
        if i < len(ps):
            out = out + ps[i]
    return out


def lit(v):
    if v is None:
        return "null"
    if isinstance(v, str):
        return "'%s'" % v.replace("\\", "\\\\").replace("'", "''")
    return repr(v)


class Ctx:
    """Two databases and a memory store, and the oracle connection that holds a copy of every table."""

    def __init__(self, rng, obs):
        self.rng, self.obs = rng, obs
        self.tables, self.views, self.nvar = {}, [], 0
        d = os.path.join(harness.scratch(), "c27")
        os.makedirs(d, exist_ok=True)
        self.paths = {n: os.path.join(d, n + ".db") for n in ("sq", "sr")}
        for p in self.paths.values():
            for x in (p, p + "-journal"):
                if os.path.exists(x):
                    os.remove(x)
        self.o = sqlite3.connect(":memory:")
        self.o.execute("pragma case_sensitive_like = off")
        self.vals = [rng.choice(HOSTILE) for _ in range(4)] + ["ab", "b"]
        self.e = None

    def add(self, db, name, cols, rows, oname=None):
        """cols: {column: declared type}"""
        oname = oname or name
        ddl = "create table `%s` (%s)" % (name, ", ".join("`%s` %s" % (c, t) for c, t in cols.items()))
        self.tables[oname] = (db, name, cols)
        self.o.execute(ddl.replace("`%s` (" % name, "`%s` (" % oname, 1))
        self.o.executemany("insert into `%s` values (%s)" % (oname, ",".join("?" * len(cols))), rows)
        if db == "memory":
            self.mem = getattr(self, "mem", {})
            self.mem[name] = [dict(zip(cols, r)) for r in rows]
            return
        c = sqlite3.connect(self.paths[db])
        c.execute(ddl)
        c.executemany("insert into `%s` values (%s)" % (name, ",".join("?" * len(cols))), rows)
        c.commit()
        c.close()

    def text(self):
        return self.rng.choice(self.vals)

    def rowsof(self, n, null=True):
        rng, out = self.rng, []
        ids = rng.sample(range(1, 13), n)
        if rng.random() < 0.5:
            ids.sort()
        ks = [rng.choice(BIGS) for _ in range(3)] + [1, 2]
        for i in ids:
            r = (i, rng.choice(ks + ([None] if null else [])), rng.randrange(1, 5), rng.choice(REALS), rng.choice(self.vals + ([None, None] if null else [])))
            self.obs.hit("null", (r[1] is None) + (r[4] is None))
            self.obs.hit("hostile", r[4] in HOSTILE)
            out.append(r)
        return out

    COLS = {"id": "integer primary key", "k": "int", "n": "int", "a": "real", "s": "text"}

    def standard(self):
        rng = self.rng
        self.add("sq", "t1", self.COLS, self.rowsof(rng.randrange(0, 9)))
        self.add("sq", "t2", self.COLS, self.rowsof(rng.randrange(1, 7)))
        self.add("sr", "t3", self.COLS, self.rowsof(rng.randrange(1, 7)))
        self.add("memory", "m1", {"id": "integer primary key", "n": "int", "w": "text"}, [(i + 1, rng.randrange(1, 5), self.text()) for i in range(rng.randrange(1, 6))])

    def start(self):
        self.e = eng.engine(getattr(self, "mem", None), {"databases": [dict({"name": n, "driver": "sqlite", "database": p}, **({"virtual_views": [v for d, v in self.views if d == n]} if any(d == n for d, v in self.views) else {}))
                                                                        for n, p in self.paths.items()]})
        if self.rng.random() < 0.2:
            self.e.set_variable("@batch", self.rng.choice([1, 2, 3, 5]))
            self.batched = True
            self.obs.hit("batched")
        return self.e

    batched = False

    def ref(self, oname):
        db, name, cols = self.tables[oname]
        return name if db == "memory" else "%s.%s" % (db, name)

    # ------------------------------------------------------------- the two texts of a statement
    def texts(self, p, raw=False):
        """(engine text, oracle text, bound values): {T:name} is a table, \\x01 a literal."""
        et, ot = p.text, p.text
        for n in self.tables:
            et = et.replace("{T:%s}" % n, self.tables[n][1] if raw else self.ref(n))
            ot = ot.replace("{T:%s}" % n, "`%s`" % n)
        parts, et = et.split("\x01"), ""
        for i, x in enumerate(parts):
            et += x
            if i < len(p.vals):
                et += self.value(p.vals[i], raw)
        return et, ot.replace("\x01", "?"), p.vals

    def value(self, v, raw):
        if raw:
            return "null" if v is None else "'%s'" % v.replace("'", "''") if isinstance(v, str) else repr(v)
        if self.rng.random() < 0.12 and v is not None:
            self.nvar += 1
            self.obs.hit("variable")
            n = "@v%d" % self.nvar
            if self.rng.random() < 0.5 or lit(v).startswith("'''"):
                self.e.set_variable(n, v)
            else:
                self.e.execute("set %s = %s" % (n, lit(v)))
            return n
        return lit(v)

    def oracle(self, ot, vals):
        cur = self.o.execute(ot, vals)
        cols = [c[0] for c in cur.description]
        return [dict(zip(cols, r)) for r in cur.fetchall()]


def exact(v):
    if isinstance(v, float):
        return ("float", "%.9g" % v)
    return (type(v).__name__, v)


def erows(rows, ordered):
    out = [[(k, exact(v)) for k, v in r.items()] for r in rows]
    return out if ordered else sorted(out, key=repr)


def judge(ctx, kind, et, want, ordered=False, **detail):
    obs = ctx.obs
    obs.hit("queries")
    obs.hit(kind)
    got = eng.attempt(eng.query, ctx.e, et)
    obs.hit("rows", len(want))
    if isinstance(got, eng.Raised) or erows(got, ordered) != erows(want, ordered):
        obs.fail(kind, "the rows differ from what the stored data and the conditions define", sql=et, got=got, want=want,
                 tables={n: ctx.o.execute("select * from `%s`" % n).fetchall() for n in ctx.tables}, batched=ctx.batched, **detail)
        return False
    if want:
        obs.nontrivial(kind, et, repr(want)[:200])
    return True


# ------------------------------------------------------------------ conditions
def cond(ctx, a="", depth=0, cols=("id", "k", "n", "a", "s")):
    rng = ctx.rng
    r = rng.random()
    if depth < 2 and r < 0.35:
        x, y = cond(ctx, a, depth + 1, cols), cond(ctx, a, depth + 1, cols)
        return F("(%s or %s)" if rng.random() < 0.35 else "(%s and %s)" if rng.random() < 0.3 and depth else "%s and %s", x, y)
    if depth < 2 and r < 0.4:
        return F("not (%s)", cond(ctx, a, depth + 1, cols))
    c = rng.choice([x for x in cols if x != "s"] + ["s"] * 3 if "s" in cols else cols)
    q = "%s%s" % (a, c if rng.random() < 0.7 else "`%s`" % c)
    val = lambda: {"id": lambda: rng.randrange(0, 13), "n": lambda: rng.randrange(0, 6), "k": lambda: rng.choice(BIGS), "a": lambda: rng.choice(REALS), "s": ctx.text, "w": ctx.text}[c]()
    k = rng.random()
    if k < 0.55:
        v = val()
        ctx.obs.hit("hostile", v in HOSTILE)
        op = rng.choice(["=", "=", "=", "!=", "<>", "<", "<=", ">", ">="])
        if rng.random() < 0.1:
            return F("%%s %s %s" % ({"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op), q), V(v))
        return F("%s %s %%s" % (q, op), V(v))
    if k < 0.72:
        vs = [val() for _ in range(rng.randrange(1, 4))]
        return F("%s %sin (%%s)" % (q, "not " if rng.random() < 0.25 else ""), J(", ", [V(v) for v in vs]))
    if k < 0.8 and c != "s":
        x, y = sorted([val(), val()])
        return F("%s between %%s and %%s" % q, V(x), V(y))
    if k < 0.88:
        return P("%s is %snull" % (q, rng.choice(["", "not "])))
    if k < 0.93 and c in ("id", "n"):
        return F("%s + %%s > %%s" % q, V(rng.randrange(0, 4)), V(rng.randrange(0, 9)))
    if c in ("id", "n") and "id" in cols and "n" in cols:
        return P("%sid %s %sn" % (a, rng.choice(["=", "<", ">=", "!="]), a))
    v = val()
    return F("%s = %%s" % q, V(v))


def tail(ctx, keys):
    """ORDER BY a total order, LIMIT"""
    rng = ctx.rng
    ks = rng.sample(keys, rng.randrange(0, len(keys) + 1))
    s = " order by " + ", ".join(["%s%s" % (k, rng.choice(["", " asc", " desc"])) for k in ks if k != "id"] + ["id" + rng.choice(["", " desc"])])
    if rng.random() < 0.4:
        s += " limit %d" % rng.randrange(1, 6) + (" offset %d" % rng.randrange(0, 4) if rng.random() < 0.4 else "")
    return s


def select(ctx):
    rng = ctx.rng
    ctx.standard()
    ctx.start()
    a, al = rng.choice([("", ""), ("x.", " x"), ("x.", " as x")])
    ok = True
    for _ in range(2):
        t = rng.choice(["t1", "t1", "t3"])
        cols = rng.sample(["k", "n", "a", "s"], rng.randrange(1, 5))
        where = F(" where %s", cond(ctx, a)) if rng.random() < 0.85 else P("")
        if rng.random() < 0.15 and not a:
            sel, order = "*", False
            keys = ["k", "n", "a", "s"]
        else:
            sel, keys = ", ".join([a + "id"] + [a + c for c in cols]), cols
        order = rng.random() < 0.5
        if rng.random() < 0.15:
            p = F("select distinct %s from {T:%s}%s%%s" % (", ".join(a + c for c in cols), t, al), where)
            order = False
        else:
            p = F("select %s from {T:%s}%s%%s%s" % (sel, t, al, tail(ctx, keys) if order else ""), where)
        et, ot, vals = ctx.texts(p)
        ok = judge(ctx, "select", et, ctx.oracle(ot, vals), order) and ok
    return ok


def group(ctx):
    rng = ctx.rng
    ctx.standard()
    ctx.start()
    g = rng.sample(["k", "n", "s"], rng.randrange(1, 3))
    aggs = rng.sample(["count(*) as c", "count(s) as cs", "sum(n) as sn", "min(id) as mi", "max(a) as ma", "count(distinct n) as dn", "min(n) as mn"], rng.randrange(1, 4))
    where = F(" where %s", cond(ctx)) if rng.random() < 0.7 else P("")
    have = " having %s %s %d" % (aggs[0].split(" as ")[1], rng.choice([">", ">=", "<", "<="]), rng.randrange(0, 4)) if rng.random() < 0.3 and "max(a)" not in aggs[0] else ""
    p = F("select %s from {T:t1}%%s group by %s%s" % (", ".join(g + aggs), ", ".join(g), have), where)
    et, ot, vals = ctx.texts(p)
    return judge(ctx, "group", et, ctx.oracle(ot, vals))


def join(ctx):
    rng = ctx.rng
    ctx.standard()
    ctx.start()
    left, right = rng.choice([("t1", "t2"), ("t1", "t3"), ("t1", "m1"), ("m1", "t1"), ("t3", "t1"), ("m1", "t3"), ("t2", "m1")])
    if {ctx.tables[left][0], ctx.tables[right][0]} == {"sq", "sr"}:
        ctx.obs.hit("two_databases")
    if "m1" in (left, right):
        ctx.obs.hit("memory_join")
    kind = rng.choice(["left join", "inner join", "left outer join", "inner join"])
    key = rng.choice(["x.id = y.id", "x.n = y.id", "x.n = y.n", "y.id = x.id"])
    if "left" in kind and key != "x.n = y.n" and rng.random() < 0.3 and right != "m1":
        key += " and y.n > %d" % rng.randrange(0, 3)
    lc, rc = ["id", "n"] + ([] if left == "m1" else ["k", "s", "a"]), ["id", "n"] + (["w"] if right == "m1" else ["k", "s", "a"])
    sel = ["x.id as id", "y.id as yid"] + ["x.%s as x%s" % (c, c) for c in rng.sample(lc, 1)] + ["y.%s as y%s" % (c, c) for c in rng.sample(rc[1:], rng.randrange(0, 2))]
    where = P("")
    if rng.random() < 0.5:
        w = cond(ctx, "x.", 1, ("id", "n") if left == "m1" else ("id", "k", "n", "a", "s"))
        if rng.random() < 0.3 and "inner" in kind:
            w = F("%s and %s", w, cond(ctx, "y.", 2, ("id", "n")))
        where = F(" where %s", w)
    p = F("select %s from {T:%s} x %s {T:%s} y on %s%%s" % (", ".join(sel), left, kind, right, key), where)
    et, ot, vals = ctx.texts(p)
    return judge(ctx, "join", et, ctx.oracle(ot, vals))


def sub(ctx):
    rng = ctx.rng
    ctx.standard()
    ctx.start()
    k = rng.randrange(6)
    if k == 0:
        p = F("select id, n, s from (select id, n, s from {T:t1} where %s) x where x.id > %s", cond(ctx), V(rng.randrange(0, 6)))
    elif k == 1:
        p = F("select id, s from {T:t1} where id in (select n from {T:%s} where %%s) and %%s" % rng.choice(["t2", "t3", "m1"]), F("id > %s", V(rng.randrange(0, 6))), cond(ctx))
    elif k == 2:
        p = F("with x as (select id, k, s from {T:t3} where %s) select id, s from x", cond(ctx))
    elif k == 3:
        p = F("select id, n from {T:t1} where n > (select min(n) as z from {T:%s}) and %%s" % rng.choice(["t2", "t3", "m1"]), cond(ctx))
    elif k == 4:
        p = F("select x.id as id, y.c as c from {T:t1} x inner join (select n, count(*) as c from {T:t3} where %s group by n) y on x.n = y.n", cond(ctx))
    else:
        ctx.obs.hit("union")
        p = F("select id, s from {T:t1} where %%s union %s select id, s from {T:%s}" % (rng.choice(["", "all"]), rng.choice(["t2", "t3"])), cond(ctx)) + (F(" where %s", cond(ctx)) if rng.random() < 0.6 else "")
        et, ot, vals = ctx.texts(p)
        return judge(ctx, "sub", et, ctx.oracle(ot, vals))
    et, ot, vals = ctx.texts(p)
    return judge(ctx, "sub", et, ctx.oracle(ot, vals))


# ------------------------------------------------------------------ raw blocks
def rawable(v):
    return not isinstance(v, str) or not any(x in v for x in ("\\", "%s", "#{", "${", "endraw"))


def rawtext(ctx, tabs):
    """A query in SQLite's own dialect: columns id, n, x."""
    rng = ctx.rng
    keep, ctx.vals = ctx.vals, [v for v in ctx.vals if rawable(v)]
    try:
        t = rng.choice(tabs)
        extra = ctx.text()
        if "'" in extra or '"' in extra:
            ctx.obs.hit("raw_quote")
        ctx.obs.hit("hostile", extra in HOSTILE)
        k = rng.randrange(5)
        if k == 0:
            p = F("select id, n, s as x from {T:%s} where %%s" % t, cond(ctx))
        elif k == 1:
            p = F("select id, n, s || %%s as x from {T:%s} where s is not null -- it's a comment\n and %%s" % t, V(extra), cond(ctx))
        elif k == 2:
            p = F("select id, n, case when %%s then %%s else \"s\" end as x\nfrom {T:%s} /* don't */ order by id" % t, cond(ctx, "", 1), V(extra))
        elif k == 3:
            p = F("select max(id) as id, n, %%s as x from {T:%s} group by n" % t, V(extra))
        else:
            p = F("with z as (select * from {T:%s}) select z.id, z.n, coalesce(z.s, %%s) as x from z where exists (select 1 from {T:%s} q where q.id <> z.id)" % (t, t), V(extra))
        return ctx.texts(p, True)
    finally:
        ctx.vals = keep


def block(rng, name, text):
    k = rng.randrange(4)
    if k == 0 and "*/" not in text:
        return "/* raw(%s) %s endraw */" % (name, text)
    if k == 1:
        return "/* raw(%s) */ (\n%s\n) /* endraw */" % (name, text)
    if k == 2:
        return "/*raw(%s)*/(%s\n)/*endraw*/" % (name, text)
    return "/* raw(%s) */ (%s\n) /* endraw */" % (name, text)


def raw(ctx):
    rng = ctx.rng
    ctx.standard()
    ctx.start()
    db = rng.choice(["sq", "sr"])
    rt, ot, vals = rawtext(ctx, ["t1", "t2"] if db == "sq" else ["t3"])
    B = block(rng, db + ".r1", rt)
    O = "(%s\n)" % ot
    k = rng.randrange(8)
    if k == 0:
        return judge(ctx, "raw", "select b.id, b.x from %s b" % B, ctx.oracle("select b.id, b.x from %s b" % O, vals))
    if k == 1:
        w, wo, wv = ctx.texts(cond(ctx, "b.", 1, ("id", "n")))
        return judge(ctx, "raw", "select b.id, b.n, b.x from %s b where %s" % (B, w), ctx.oracle("select b.id, b.n, b.x from %s b where %s" % (O, wo), vals + wv))
    if k == 2:
        q = "select b.n, count(*) as c from %s b group by b.n"
        return judge(ctx, "raw", q % B, [dict(r) for r in ctx.oracle(q % O, vals)])
    if k == 3:
        q = "select b.id as id, b.x as x, m.w as w from %s b inner join m1 m on b.n = m.n"
        return judge(ctx, "raw", q % B, ctx.oracle(q % O, vals))
    if k == 4:
        q = "select m.id as id, b.x as x from m1 m left join %s b on m.id = b.id"
        return judge(ctx, "raw", q % B, ctx.oracle(q % O, vals))
    if k == 5:
        rt2, ot2, vals2 = rawtext(ctx, ["t3"])
        B2, O2 = block(rng, "sr.r2", rt2), "(%s\n)" % ot2
        q = "select b.id as id, b.x as x, c.x as cx from %s b inner join %s c on b.id = c.id"
        return judge(ctx, "raw", q % (B, B2), ctx.oracle(q % (O, O2), vals + vals2))
    if k == 6:
        # statements of one script use the same name for different texts
        rt2, ot2, vals2 = rawtext(ctx, ["t1", "t2"] if db == "sq" else ["t3"])
        B2, O2 = block(rng, db + ".r1", rt2), "(%s\n)" % ot2
        q = "select b.id, b.x from %s b"
        ctx.obs.hit("raw_same_name")
        sql = "insert into o1 %s;\ninsert into o2 %s" % (q % B, q % B2)
        r = eng.attempt(ctx.e.execute, sql)
        wants = [ctx.oracle(q % O, vals), ctx.oracle(q % O2, vals2)]
        ctx.obs.hit("queries")
        ctx.obs.hit("raw")
        gots = [r if isinstance(r, eng.Raised) else eng.attempt(ctx.e.pop_memory_datas, n) for n in ("o1", "o2")]
        for g, w in zip(gots, wants):
            if isinstance(g, eng.Raised) or erows(g or [], False) != erows(w, False):
                ctx.obs.fail("raw", "two raw blocks of one name: a statement got other rows than its own block defines", sql=sql, got=gots, want=wants)
                return False
        ctx.obs.nontrivial("raw2", sql)
        return True
    n = rng.randrange(0, 6)
    ctx.e.set_variable("@lim", n)
    t = "t1" if db == "sq" else "t3"
    B = block(rng, db + ".r1", "select id, n from %s where n > ${@lim}" % t)
    return judge(ctx, "raw", "select b.id, b.n from %s b" % B, ctx.oracle("select id, n from %s where n > ?" % t, [n]))


# ------------------------------------------------------------------ views
OPN = {"eq": "=", "neq": "!=", "gt": ">", "gte": ">=", "lt": "<", "lte": "<="}
SYM = {"eq": "==", "neq": "!=", "gt": ">", "gte": ">=", "lt": "<", "lte": "<="}


def view(ctx):
    rng = ctx.rng
    if rng.random() < 0.4:
        ctx.vals[:3] = rng.sample(["12:30", "a:b:c", "30", "http://h:80/x?y=1", "c", "x:", "2024-03-05", "null", "1e5", "007", "a b", "x)", "{}"], 3)
    ctx.standard()
    db = rng.choice(["sq", "sr"])
    t = rng.choice(["t1", "t2"]) if db == "sq" else "t3"
    texts = [v for v in ctx.vals if rawable(v) and not any(c in v for c in "{}'\n\r") and v == v.strip() and v]
    # parameters: (name, op, default)
    params, used = [], set()
    for _ in range(rng.randrange(0, 4)):
        c, op = rng.choice(["id", "k", "n", "s", "s", "p"]), rng.choice(["eq", "eq", "eq", "gt", "gte", "lt", "lte", "neq"])
        if (c, op) in used or c == "s" and op not in ("eq", "neq"):
            continue
        used.add((c, op))
        params.append((c, op, rng.choice(texts) if c == "s" and texts else "ab" if c == "s" else rng.randrange(0, 8)))
    occ, conds = [], []
    for c, op, d in params:
        conds.append("%s %s \x02" % ({"p": "n"}.get(c, c), OPN[op]))
        occ.append((c, op, d))
        if rng.random() < 0.2:
            conds.append("(%s %s \x02 or id > 3)" % ({"p": "id"}.get(c, c), OPN[op]))
            occ.append((c, op, d))
    how = rng.choice(["set", "set", "config", "cfglist"])
    # the text of a SET is between triple quotes and may hold no other ones
    keep, ctx.vals = ctx.vals, [v for v in ctx.vals if rawable(v) and (how != "set" or "'''" not in lit(v))]
    fixed = ctx.texts(cond(ctx, "", 1), True) if rng.random() < 0.4 else None
    ctx.vals = keep
    cols = rng.choice(["*", "id, k, n, s", "id, n, k, s || '!' as s", "id, k, n, \"s\" as s"])
    head = "select %s from %s where id > 0" % (cols, t)
    body = "".join(" and " + c for c in conds)
    engine_body, oracle_body = body, body.replace("\x02", "?")
    tail_e = " and (%s)" % fixed[0] if fixed else ""
    tail_o = " and (%s)" % fixed[1] if fixed else ""
    if how == "set":
        for c, op, d in occ:
            if isinstance(d, str):
                try:
                    json.loads(d)
                    ds = json.dumps(d, ensure_ascii=False)
                except ValueError:
                    ds = rng.choice([d, json.dumps(d, ensure_ascii=False)]) if '"' not in d else d
            else:
                ds = str(d)
            engine_body = engine_body.replace("\x02", "#{%s%s:%s}" % (c, "" if op == "eq" and rng.random() < 0.7 else "__" + op, ds), 1)
        ctx.obs.hit("view_set")
    else:
        engine_body = engine_body.replace("\x02", "%s")
        q = head + engine_body + tail_e
        ctx.views.append((db, {"name": "vv", "query": q if how == "config" else q.replace(" and ", "\x03and ").split("\x03") if not fixed else q, "args": [[c, SYM[op], d] for c, op, d in occ]}))
        ctx.obs.hit("view_config")
    e = ctx.start()
    if how == "set":
        s = rng.choice(["set @config.databases.%s.virtual_views.vv='''%s\n'''", "set @databases.%s.virtual_views.vv = '''%s\n'''", "SET @virtual_views.%s.vv = '''\n%s''';", "set @config.databases.%s.virtual_views.vv='''%s '''"]) % (db, head + engine_body + tail_e)
        r = eng.attempt(e.execute, s)
        if isinstance(r, eng.Raised):
            ctx.obs.fail("view", "a view could not be defined", sql=s, got=r)
            return False
    ok = True
    for _ in range(2):
        # conditions: parameters given a value, and plain conditions on the view's columns
        given, ws, wo, wv = {}, [], [], []
        for c, op, d in params:
            if rng.random() < 0.6:
                v = rng.choice(ctx.vals) if c == "s" else rng.randrange(0, 8)
                given[(c, op)] = v
                ws.append(F("%s %s %%s" % (c, OPN[op]), V(v)))
                ctx.obs.hit("override")
            else:
                ctx.obs.hit("default")
        free = [c for c in ("id", "n", "k", "s")]
        if rng.random() < 0.4:
            c = rng.choice(free)
            ops = [o for o in OPN if (c, o) not in used and (c != "s" or o in ("eq", "neq"))]
            if ops:
                o = rng.choice(ops)
                x = F("%s %s %%s" % (c, OPN[o]), V(ctx.text() if c == "s" else rng.randrange(0, 8)))
                ws.append(x)
                wo.append(x)
        rng.shuffle(ws)
        if ctx.batched and any(c == "id" for c, op, d in params):
            ctx.e.set_variable("@batch", 0)
        sel = rng.choice(["id, n", "id, s", "id, k, s"])
        et = ctx.texts(F("select %s from %s.vv%%s" % (sel, db), F(" where %s", J(" and ", ws)) if ws else P("")))[0]
        bound = [given.get((c, op), d) for c, op, d in occ] + (fixed[2] if fixed else [])
        op_ = ctx.texts(F("select %s from (\x04)%%s" % sel, F(" where %s", J(" and ", wo)) if wo else P("")))
        want = ctx.oracle(op_[1].replace("\x04", head + oracle_body + tail_o), bound + op_[2])
        shape = rng.random()
        if shape < 0.15:
            et = "select x.id, x.%s from (%s) x" % (sel.split(", ")[1], et)
            want = [{k: r[k] for k in ("id", sel.split(", ")[1])} for r in want]
        ok = judge(ctx, "view", et, want, view=[x[1] for x in ctx.views] or s, occ=occ) and ok
    return ok


# ------------------------------------------------------------------ names
NAMES = ["order", "group", "my col", "select", "Ünï", "a-b", "x1", "from", "CamelCase", "_u", "1st", "key", "a+b", "limit", "né"]


def names(ctx):
    rng = ctx.rng
    cs = rng.sample(NAMES, 3)
    tn = rng.choice(["order", "my table", "Tàble", "select", "a-b", "T", "x_1", "group"])
    ctx.add("sq", tn, {"id": "integer primary key", cs[0]: "int", cs[1]: "text", cs[2]: "real"}, [(i + 1, rng.randrange(0, 4), ctx.text(), rng.choice(REALS)) for i in range(rng.randrange(1, 6))])
    ctx.start()
    sel = ["id"] + ["`%s`" % c for c in rng.sample(cs, rng.randrange(1, 4))]
    w = rng.choice([F("`%s` >= %%s" % cs[0], V(rng.randrange(0, 3))), F("`%s` = %%s" % cs[1], V(ctx.text())), F("`%s` < %%s or id = 1" % cs[2], V(1.5)), P("id > 0")])
    p = F("select %s from {N} where %%s" % ", ".join(sel), w)
    et, ot, vals = ctx.texts(p)
    return judge(ctx, "names", et.replace("{N}", "sq.`%s`" % tn), ctx.oracle(ot.replace("{N}", "`%s`" % tn), vals))


# ------------------------------------------------------------------ statements that change tables
def stored(ctx, obs, sql, kind):
    got = {}
    for on, (db, name, cols) in ctx.tables.items():
        if db == "memory":
            continue
        c = sqlite3.connect(ctx.paths[db])
        got[on] = c.execute("select * from `%s` order by id" % name).fetchall()
        c.close()
    want = {on: ctx.o.execute("select * from `%s` order by id" % on).fetchall() for on in got}
    if repr(got) != repr(want):
        obs.fail(kind, "the stored rows are not what the statement defines", sql=sql, got=got, want=want)
        return False
    return True


def dml(ctx):
    rng, obs = ctx.rng, ctx.obs
    ctx.standard()
    ctx.start()
    log = []
    for _ in range(rng.randrange(2, 6)):
        t = rng.choice(["t1", "t2", "t3"])
        have = [r[0] for r in ctx.o.execute("select id from %s" % t).fetchall()]
        k = rng.random()
        obs.hit("queries")
        if k < 0.3:
            rows = [(20 + rng.randrange(0, 1000) * 10 + i,) + r[1:] for i, r in enumerate(ctx.rowsof(rng.randrange(1, 5)))]
            rows = [r for r in rows if r[0] not in have]
            cols = ["id"] + rng.sample(["k", "n", "a", "s"], rng.randrange(1, 5))
            full = ["id", "k", "n", "a", "s"]
            ix = [full.index(c) for c in cols]
            p = F("insert into {T:%s} (%s) values %%s" % (t, ", ".join(rng.choice([c, "`%s`" % c]) for c in cols)), J(", ", [F("(%s)", J(", ", [V(r[i]) for i in ix])) for r in rows]))
            et = "".join(x + (lit(v) if v is not None or i < len(p.vals) else "") for i, (x, v) in enumerate(zip(p.text.replace("{T:%s}" % t, ctx.ref(t)).split("\x01"), p.vals + [None])))
            oracle = ("insert into %s (%s) values (%s)" % (t, ", ".join(cols), ", ".join("?" * len(cols))), [tuple(r[i] for i in ix) for r in rows])
            kind = "insert"
        elif k < 0.55:
            src = rng.choice([x for x in ("t1", "t2", "t3") if x != t])
            off = 100 * rng.randrange(1, 90)
            w = F(" where %s", cond(ctx)) if rng.random() < 0.7 else P("")
            p = F("insert into {T:%s} (id, k, n, a, s) select id + %d as id, k, n, a, s from {T:%s}%%s" % (t, off, src), w)
            if any(i + off in have for i in range(0, 100000) if i + off in have):
                continue
            et, ot, vals = ctx.texts(p)
            oracle = (ot, vals)
            kind = "insert"
        elif k < 0.67:
            # rows of another table by key: update, update or insert, and also remove the others
            mode, src = rng.choice(["U", "UI", "UDI"]), rng.choice([x for x in ("t1", "t2", "t3") if x != t])
            cols = ["id"] + rng.sample(["k", "n", "a", "s"], rng.randrange(1, 5))
            w = F(" where %s", cond(ctx)) if rng.random() < 0.6 and mode != "UDI" else P("")
            p = F("insert into {D} (%s) select %s from {T:%s}%%s" % (", ".join(cols), ", ".join(cols), src), w)
            db, name, _ = ctx.tables[t]
            et, ot, vals = ctx.texts(p)
            et = et.replace("{D}", "%s.`%s<%s>`" % (db, name, mode))
            new = ctx.o.execute(ot[ot.index("select"):], vals).fetchall()
            if not new and mode == "UDI":
                continue
            obs.hit("update", sum(r[0] in have for r in new))
            if mode == "UDI":
                ctx.o.execute("delete from %s where id not in (%s)" % (t, ", ".join(str(r[0]) for r in new)))
            for r in new:
                if r[0] in have:
                    ctx.o.execute("update %s set %s where id = ?" % (t, ", ".join("%s = ?" % c for c in cols[1:])), r[1:] + r[:1])
                elif mode != "U":
                    ctx.o.execute("insert into %s (%s) values (%s)" % (t, ", ".join(cols), ", ".join("?" * len(cols))), r)
            oracle = ("select 1", [])
            kind = "keyed"
        elif k < 0.78:
            w = cond(ctx, "", 3)
            p = F("insert into {T:%s} select id + %d as id, n, w as s from {T:m1} where id > %%s" % (t, 10000 * rng.randrange(1, 9)), V(rng.randrange(0, 3)))
            et, ot, vals = ctx.texts(p)
            ids = [r[0] for r in ctx.o.execute(ot.split(" ", 3)[3][ot.split(" ", 3)[3].index("select"):] if False else ot[ot.index("select"):], vals)]
            if set(ids) & set(have):
                continue
            oracle = (ot.replace("insert into `%s`" % t, "insert into `%s` (id, n, s)" % t), vals)
            kind = "insert"
        else:
            # DELETE takes conditions joined by AND, each on its own column and operator
            c = rng.sample(["id", "k", "n", "a", "s"], rng.randrange(1, 3))
            ws = []
            for x in c:
                v = {"id": rng.randrange(0, 13), "k": rng.choice(BIGS), "n": rng.randrange(1, 5), "a": rng.choice(REALS), "s": ctx.text()}[x]
                if rng.random() < 0.25:
                    ws.append(F("%s in (%%s)" % x, J(", ", [V(v), V({"id": 3, "k": 2, "n": 2, "a": 0.5, "s": ctx.text()}[x])])))
                else:
                    ws.append(F("%s %s %%s" % (x, rng.choice(["=", "=", "!=", "<", ">", "<=", ">="] if x != "s" else ["=", "=", "!="])), V(v)))
            p = F("delete from {T:%s} where %%s" % t, J(" and ", ws))
            et, ot, vals = ctx.texts(p)
            oracle = (ot, vals)
            kind = "delete"
        obs.hit(kind)
        log.append(et)
        r = eng.attempt(ctx.e.execute, et)
        if isinstance(r, eng.Raised):
            obs.fail(kind, "a statement failed", sql=log, got=r, tables={n: ctx.o.execute("select * from `%s`" % n).fetchall() for n in ctx.tables})
            return False
        if isinstance(oracle[1], list) and oracle[1] and isinstance(oracle[1][0], tuple):
            ctx.o.executemany(*oracle)
        else:
            ctx.o.execute(*oracle)
        if not stored(ctx, obs, log, kind):
            return False
        obs.nontrivial(kind, et)
        if rng.random() < 0.3:
            if not judge(ctx, "select", "select * from %s" % ctx.ref(t), ctx.oracle("select * from %s" % t, []), False, log=log):
                return False
    return True


KINDS = {"select": select, "group": group, "join": join, "sub": sub, "raw": raw, "view": view, "names": names, "dml": dml}
MIX = ["select"] * 4 + ["group"] * 2 + ["join"] * 4 + ["sub"] * 4 + ["raw"] * 6 + ["view"] * 5 + ["names"] * 2 + ["dml"] * 4


def make(rng, i, tier):
    return {"kind": rng.choice(MIX), "seed": rng.randrange(2 ** 48)}


def run(case, obs):
    ctx = Ctx(random.Random(case["seed"]), obs)
    try:
        if KINDS[case["kind"]](ctx):
            obs.sample({"kind": case["kind"]})
    finally:
        ctx.o.close()
