"""C13: INSERT modes and DELETE change the target exactly as specified.

A case is a history of INSERT (every mode, every kind of source), DELETE and SELECT statements over two target tables and a source table.
The generator applies every statement to a model (lists of dicts) and records the rows every table must hold after every step.
"""
import copy, json, os, shutil, sqlite3
from vlib import eng, harness

META = {
    "id": "C13", "sizes": {"quick": 9000, "thorough": 120000}, "chunk": 40, "probes": True,
    "rule": "a history of INSERT, DELETE and SELECT statements was executed against real tables (memory, JSON file, sqlite) and after every statement the contents of every table were compared with the model",
    "required": {"steps": 30000, "mode_I": 3000, "mode_U": 1500, "mode_UI": 2500, "mode_UDI": 1500, "mode_DI": 1500, "delete": 4000, "delete_all": 200, "read": 2500, "values": 2000, "group": 800, "join": 800, "union": 800,
                 "subquery": 400, "cte": 400, "limit": 600, "distinct": 300, "empty_source": 1500, "restricted": 250, "columns": 2500, "renamed": 1000, "self": 500, "use_type": 800, "variable": 600, "store_memory": 4000, "store_json": 500,
                 "store_sqlite": 500, "batched": 1500, "updated": 5000, "inserted": 10000, "removed": 5000, "kept": 20000, "script": 1500},
    "technique": "runtime monitoring: model of the tables run in lock step with the real statements; full contents of every table observed after every statement",
    "note": "Keyed modes are generated with unique keys on both sides. Conditions compare columns that hold no NULL (a NULL in a compared column is the known finding pushdown-compare, probed separately).",
}

COLS = ["id", "k", "v", "s"]
STR = ["a", "b", "A", "", "x y", "it's", "é", "0", "null", "a;b"]
TYPES = {"I": ["INSERT", "I", "insert"], "U": ["UPDATE", "U"], "UI": ["UPDATE_INSERT", "UI", "ui"], "UDI": ["UPDATE_DELETE_INSERT", "UDI"], "DI": ["DELETE_INSERT", "DI"]}


def q(v):
    if v is None:
        return "null"
    return "'%s'" % v.replace("'", "''") if isinstance(v, str) else str(v)


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.store = rng.choice(["memory"] * 8 + ["json", "sqlite"])
        self.hits = {"store_" + self.store: 1}
        self.uni = rng.choice([6, 10, 16])
        n = rng.randint(0, 8)
        self.tables = {"src": self.rows(rng.randint(0, 7)), "t1": self.rows(rng.randint(1, 8)), "t2": self.rows(n if self.store == "memory" else max(n, 1))}
        self.kept = dict.fromkeys(self.tables, 0)

    def hit(self, k, n=1):
        self.hits[k] = self.hits.get(k, 0) + n

    def rows(self, n):
        rng = self.rng
        ids = rng.sample(range(1, self.uni + 1), min(n, self.uni))
        if rng.random() < 0.4:
            ids.sort()
        return [{"id": i, "k": rng.randint(1, 4), "v": rng.choice([None, 0, 1, 5, -3, 10, 1000]), "s": rng.choice(STR + [None])} for i in ids]

    def ref(self, name, mode=None):
        if self.store == "json" and name != "src":
            return "`file://{DIR}/%s.json%s`" % (name, "<%s>" % mode if mode else "")
        if self.store == "sqlite" and name != "src":
            return "sq.`%s<%s>`" % (name, mode) if mode else "sq." + name
        return "`%s%s`" % (name, "<%s>" % mode) if mode else self.rng.choice([name, "`%s`" % name])

    def cond(self, col, delete=False):
        """(sql text on the column {c}, predicate on a value) for an int column without NULLs."""
        rng = self.rng
        n = rng.randint(0, self.uni if col == "id" else 5)
        forms = [("{c} = %d" % n, lambda x: x == n), ("{c} > %d" % n, lambda x: x > n), ("{c} >= %d" % n, lambda x: x >= n), ("{c} < %d" % n, lambda x: x < n), ("{c} <= %d" % n, lambda x: x <= n),
                 ("{c} <> %d" % n, lambda x: x != n), ("{c} != %d" % n, lambda x: x != n), ("%d < {c}" % n, lambda x: x > n), ("%d >= {c}" % n, lambda x: x <= n)]
        if self.store != "sqlite":
            l = [rng.randint(1, self.uni) for _ in range(rng.randint(1, 4))]
            forms += [("{c} in (%s)" % ", ".join(map(str, l)), lambda x: x in l), ("{c} not in (%s)" % ", ".join(map(str, l)), lambda x: x not in l)] * 2
        if delete:
            forms = [f for f in forms if "not in" not in f[0]]
        text, p = rng.choice(forms)
        if not delete and rng.random() < 0.3 and text.startswith("{c} ") and "in (" not in text:
            m = rng.randint(0, 6)
            text, p2 = text + " and {c} < %d" % (n + m), p
            return text, lambda x: p2(x) and x < n + m
        return text, p

    # ---- sources: (sql, output columns, rows, predicate restricting the concerned target rows by key or None)
    def source(self, cols, keyed, target):
        rng = self.rng
        name = rng.choice(["src", "src", "src", "t1", "t2"])
        if name == target:
            self.hit("self")
        src = self.tables[name]
        if keyed and len({r["id"] for r in src}) != len(src):
            name, src = "src", self.tables["src"]
        tref, src = self.ref(name), full(src)
        form = rng.choice(["plain"] * 5 + ["group", "join", "union", "subquery", "cte", "limit", "distinct", "order", "const"])
        # the key expression: id, or an injective function of it
        add = rng.choice([0, 0, 0, 1, 3, -2])
        keyx = lambda a="": ("%sid" % a if add == 0 else "%sid %s %d" % (a, "+" if add > 0 else "-", abs(add)))
        pick = []   # per column after the key: (sql on alias a, function of the row)
        for c in cols[1:]:
            if c == "s":
                w = rng.choice(STR)
                pick.append(rng.choice([(lambda a: a + "s", lambda r: r["s"]), (lambda a: a + "s", lambda r: r["s"]), (lambda a, w=w: q(w), lambda r, w=w: w), (lambda a: "null", lambda r: None),
                                        (lambda a: "upper(%ss)" % a, lambda r: None if r["s"] is None else r["s"].upper())]))
            else:
                n = rng.randint(-5, 20)
                pick.append(rng.choice([(lambda a: a + "v", lambda r: r["v"]), (lambda a: a + "k", lambda r: r["k"]), (lambda a, n=n: "%sk + %d" % (a, n), lambda r, n=n: r["k"] + n),
                                        (lambda a, n=n: str(n), lambda r, n=n: n), (lambda a: "%sk * %sid" % (a, a), lambda r: r["k"] * r["id"]),
                                        (lambda a: "case when %sk > 2 then %sv else 7 end" % (a, a), lambda r: r["v"] if r["k"] > 2 else 7)] if c == "v" else
                                       [(lambda a: a + "k", lambda r: r["k"]), (lambda a, n=abs(n): str(n), lambda r, n=abs(n): n), (lambda a: "%sk + 1" % a, lambda r: r["k"] + 1)]))
        rename = rng.random() < 0.5
        out = ["c%d" % i if rename and rng.random() < 0.6 else c for i, c in enumerate(cols)] if rename else list(cols)
        if rename and rng.random() < 0.3:
            out = cols[1:] + cols[:1]          # the same names in another order: position decides
        listed = out != cols or rng.random() < 0.3
        if out != cols:
            self.hit("renamed")
        # names that shadow other columns of the source take precedence in conditions: keep those away
        shadow = out != cols and bool(set(out) & set(COLS))
        where, pred, restrict = "", lambda r: True, None

        def sel(a=""):
            return ", ".join("%s%s" % (x, "" if x == o else " as %s" % o) for x, o in zip([keyx(a)] + [p[0](a) for p in pick], out))

        def make(r):
            return dict(zip(cols, [r["id"] + add] + [p[1](r) for p in pick]))

        if form in ("plain", "order", "limit") and not shadow and (form == "plain" or out == cols):
            x = rng.random()
            if x < 0.6 and add == 0:
                t, p = self.cond("id")
                where, pred = " where " + t.format(c="id"), lambda r: p(r["id"])
                restrict = p if "not in" not in t else None
            elif x < 0.7 and "k" not in cols and not any("k" in g[0]("") for g in pick):
                t, p = self.cond("k")
                where, pred = " where " + t.format(c="k"), lambda r: p(r["k"])
        if form == "const":
            n = rng.randint(1, self.uni)
            vals = [None if c is None else c for c in [rng.choice([None, 3, 44]) if c != "s" else rng.choice(STR) for c in cols[1:]]]
            if "k" in cols:
                vals[cols.index("k") - 1] = 3
            return "select " + ", ".join("%s as %s" % (q(v), o) for v, o in zip([n] + vals, out)), out, [dict(zip(cols, [n] + vals))], None, listed
        if form == "group":
            aggs = []
            for c in cols[1:]:
                if c == "s":
                    aggs.append(rng.choice([("max(s)", lambda g: max([r["s"] for r in g if r["s"] is not None], default=None)), ("'g'", lambda g: "g")]))
                else:
                    aggs.append(rng.choice([("count(*)", len), ("sum(id)", lambda g: sum(r["id"] for r in g)), ("max(id)", lambda g: max(r["id"] for r in g)), ("min(id) + 1", lambda g: min(r["id"] for r in g) + 1)]))
            groups = {}
            for r in src:
                groups.setdefault(r["k"], []).append(r)
            if "k" in out:
                out, listed = ["id"] + ["g%d" % i for i in range(1, len(cols))], True
            sql = "select " + ", ".join("%s%s" % (x, "" if x == o else " as %s" % o) for x, o in zip(["k"] + [a[0] for a in aggs], out)) + " from %s group by k" % tref
            return sql, out, [dict(zip(cols, [k] + [a[1](g) for a in aggs])) for k, g in groups.items()], None, listed
        if form == "join":
            oth = full(self.tables["src"])
            if len({r["id"] for r in oth}) != len(oth):
                return self.source(cols, keyed, target)
            m = {r["id"]: r for r in oth}
            inner = rng.random() < 0.5 or "k" in cols
            rows = [dict(zip(cols, [r["id"] + add] + [(m[r["id"]][c] if r["id"] in m else None) for c in cols[1:]])) for r in src if r["id"] in m or not inner]
            if len(cols) < 2:
                return self.source(cols, keyed, target)
            return "select %s from %s a %s src b on a.id = b.id" % (", ".join("%s as %s" % (x, o) for x, o in zip([keyx("a.")] + ["b." + c for c in cols[1:]], out)), tref, "inner join" if inner else "left join"), out, rows, None, listed
        if form == "union":
            n = rng.randint(1, self.uni)
            if shadow:
                return self.source(cols, keyed, target)
            a, b = [r for r in src if r["id"] <= n], [r for r in src if r["id"] > n]
            sql = "select %s from %s where id <= %d union %sselect %s from %s where id > %d" % (sel(), tref, n, rng.choice(["all ", "all ", ""]) if keyed else "all ", sel(), tref, n)
            return sql, out, [make(r) for r in a + b], None, listed
        if form == "subquery":
            t, p = self.cond("id")
            return "select %s from (select id, k, v, s from %s where %s) q" % (sel("q."), tref, t.format(c="id")), out, [make(r) for r in src if p(r["id"])], None, listed
        if form == "cte":
            t, p = self.cond("id")
            return "with c0 as (select id, k, v, s from %s where %s) select %s from c0 q" % (tref, t.format(c="id"), sel("q.")), out, [make(r) for r in src if p(r["id"])], None, listed
        rows = [r for r in src if pred(r)]
        tail = where
        if form in ("order", "limit"):
            if shadow or len({r["id"] for r in src}) != len(src):
                form = "plain"
            else:
                desc = rng.random() < 0.5
                rows = sorted(rows, key=lambda r: r["id"], reverse=desc)
                tail += " order by %s%s" % (out[0] if rng.random() < 0.5 or add or out != cols else "id", " desc" if desc else "")
                if form == "limit":
                    n = rng.choice([0, 1, 2, 3, 9])
                    rows = rows[:n]
                    tail += " limit %d" % n
        rows = [make(r) for r in rows]
        if form == "distinct":
            seen = []
            for r in rows:
                if r not in seen:
                    seen.append(r)
            rows = seen
        return "select %s%s from %s%s" % ("distinct " if form == "distinct" else "", sel(), tref, tail), out, rows, restrict, listed

    def values(self, cols, keyed):
        rng = self.rng
        n = rng.randint(1, 4)
        ids = rng.sample(range(1, self.uni + 1), n)
        rows, texts, pre = [], [], []
        for i in ids:
            r = {"id": i, "k": rng.randint(1, 4), "v": rng.choice([None, 0, 2, -7, 123456789]), "s": rng.choice(STR + [None])}
            r = {c: r[c] for c in cols}
            t = []
            for c in cols:
                if rng.random() < 0.15:
                    v = "@w%d" % len(pre)
                    pre.append("set %s = %s" % (v, q(r[c])))
                    t.append(v)
                    self.hit("variable")
                else:
                    t.append(q(r[c]))
            rows.append(r)
            texts.append("(" + ", ".join(t) + ")")
        self.hit("values")
        return pre, "values " + rng.choice([", ", ","]).join(texts), rows

    # ---- statements
    def insert(self):
        rng = self.rng
        target = rng.choice(["t1", "t1", "t2"])
        cur = self.tables[target]
        mode = rng.choice(["I", "I", "U", "UI", "UI", "UDI", "UDI", "DI"])
        keyed = mode in ("U", "UI", "UDI", "DI")
        if mode in ("U", "UI", "UDI") and len({r.get("id") for r in cur}) != len(cur):
            mode, keyed = "I", False
        cols = ["id"] + rng.sample(COLS[1:], rng.choice([1, 2, 3, 3]))
        if mode in ("I", "UI", "UDI", "DI") and "k" not in cols:
            cols.append("k")                    # rows that may be inserted never miss k: conditions on k stay free of NULL
        pre, listed, restrict = [], False, None
        if rng.random() < 0.25:
            pre, sql, rows = self.values(cols, keyed)
            listed = True
        else:
            sql, out, rows, restrict, listed = self.source(cols, keyed, target)
            for k, w in (("group", "group by"), ("join", " join "), ("union", " union "), ("subquery", "from (select"), ("cte", "with c0"), ("limit", " limit "), ("distinct", "select distinct")):
                if w in sql:
                    self.hit(k)
            if out != cols:
                listed = True
        if keyed and len({r["id"] for r in rows}) != len(rows):
            return None
        if self.store == "sqlite" and (mode in ("U", "UI") and (len(rows) > 1 or " limit " in sql) or mode == "UDI" or mode == "DI" and restrict is None):
            return None      # the external sqlite driver cannot write IN lists of several values nor delete without a condition
        if not rows:
            self.hit("empty_source")
        rows = copy.deepcopy(rows)
        collist = ""
        if listed:
            self.hit("columns")
            collist = " (%s)" % ", ".join("`%s`" % c if rng.random() < 0.2 else c for c in cols)
        how = rng.random()
        settings = {}
        if how < 0.3 and mode != "I" or how < 0.1:
            settings["@use_output_type"] = rng.choice(TYPES[mode])
            self.hit("use_type")
            tref = self.ref(target)
        elif mode == "I" and how < 0.7:
            tref = self.ref(target)
        else:
            tref = self.ref(target, rng.choice([mode, mode, mode.lower()]))
        concerned = [r for r in cur if restrict is None or restrict(r["id"])]
        if restrict is not None and mode in ("UDI", "DI"):
            self.hit("restricted")
        self.hit("mode_" + mode)
        by = {r["id"]: r for r in rows}
        new = []
        if mode == "I":
            new = cur + rows
            self.hit("inserted", len(rows))
        elif mode == "DI":
            new = [r for r in cur if r not in concerned] + rows
            self.hit("removed", len(concerned))
            self.hit("inserted", len(rows))
            self.hit("kept", len(cur) - len(concerned))
        else:
            for r in cur:
                if r["id"] in by:
                    r = dict(r, **by[r["id"]])
                    self.hit("updated")
                elif mode == "UDI" and r in concerned:
                    self.hit("removed")
                    continue
                else:
                    self.hit("kept")
                new.append(r)
            if mode != "U":
                ids = {r["id"] for r in cur}
                add = [dict(r) for r in rows if r["id"] not in ids]
                self.hit("inserted", len(add))
                new += add
        self.tables[target] = new
        verb = rng.choice(["insert into", "INSERT INTO", "Insert Into"])
        return {"sql": ";\n".join(pre + ["%s %s%s %s" % (verb, tref, collist, sql)]), "settings": settings}

    def delete(self):
        rng = self.rng
        target = rng.choice(["t1", "t1", "t2", "src"])
        cur = self.tables[target]
        if rng.random() < 0.06 and (self.store != "sqlite" or target == "src"):
            self.hit("delete_all")
            self.tables[target] = []
            return {"sql": "delete from %s" % self.ref(target), "settings": {}}
        preds, texts, pre = [], [], []
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
            c = rng.choice(["id", "id", "k"])
            x = rng.random()
            sq = self.store == "sqlite"
            if x < 0.55:
                t, p = self.cond(c, True)
                texts.append(t.format(c=c))
                preds.append(lambda r, c=c, p=p: p(r[c]))
            elif x < 0.65:
                w = rng.choice(STR)
                texts.append("s = %s" % q(w))
                preds.append(lambda r, w=w: r.get("s") == w)
            elif x < 0.72 and not sq:
                ws = rng.sample(STR, rng.randint(1, 3))
                texts.append("s in (%s)" % ", ".join(map(q, ws)))
                preds.append(lambda r, ws=ws: r.get("s") in ws)
            elif x < 0.8:
                n = rng.choice([0, 1, 5, 10])
                texts.append("v = %d" % n)
                preds.append(lambda r, n=n: r.get("v") == n)
            elif x < 0.87:
                n, v = rng.randint(0, self.uni), "@d%d" % len(pre)
                pre.append("set %s = %d" % (v, n))
                self.hit("variable")
                op = rng.choice(["=", ">", "<="])
                texts.append("%s %s %s" % (c, op, v))
                preds.append(lambda r, c=c, n=n, op=op: r[c] == n if op == "=" else r[c] > n if op == ">" else r[c] <= n)
            elif x < 0.94 and not sq and target != "src" and self.tables["src"]:
                n = rng.randint(0, self.uni)
                ids = {r["id"] for r in self.tables["src"] if r["id"] <= n}
                if not ids:
                    return None
                texts.append("id in (select id from src where id <= %d)" % n)
                preds.append(lambda r, ids=ids: r["id"] in ids)
            else:
                a, b = rng.randint(0, 4), rng.randint(0, 4)
                texts.append("%s %s %d + %d" % (c, ">=", a, b))
                preds.append(lambda r, c=c, n=a + b: r[c] >= n)
        # DELETE takes one condition per column and operator (it refuses others): keep one per column
        if len(texts) != len({next(c for c in COLS if (" %s " % c) in (" %s " % t)) for t in texts}):
            return None
        self.hit("delete")
        new = [r for r in cur if not all(p(r) for p in preds)]
        self.hit("removed", len(cur) - len(new))
        self.hit("kept", len(new))
        self.tables[target] = new
        return {"sql": ";\n".join(pre + ["%s %s where %s" % (rng.choice(["delete from", "DELETE FROM"]), self.ref(target), rng.choice([" and ", " AND "]).join(texts))]), "settings": {}}

    def read(self):
        rng = self.rng
        t = rng.choice(["t1", "t2"])
        c, p = self.cond("id")
        self.hit("read")
        return {"sql": "insert into ro select id, k, v, s from %s where %s" % (self.ref(t), c.format(c="id")), "settings": {}, "read": [{k: r.get(k) for k in COLS} for r in self.tables[t] if p(r["id"])]}

    def history(self):
        rng = self.rng
        steps = []
        while len(steps) < self.n:
            save, hits = {k: [dict(r) for r in v] for k, v in self.tables.items()}, dict(self.hits)
            x = rng.random()
            s = self.insert() if x < 0.68 else self.delete() if x < 0.88 else self.read()
            if s is None:
                self.tables, self.hits = save, hits
                continue
            if rng.random() < 0.2 and (self.store == "memory" or not any(s["sql"].count(f) > 1 for f in ("t1", "t2"))):     # see the finding self-insert-batch
                s["settings"][rng.choice(["@batch", "@insert_batch"])] = rng.choice([1, 2, 3, 100])
                self.hit("batched")
            s["after"] = {k: copy.deepcopy(v) for k, v in self.tables.items()}
            steps.append(s)
        # some neighbouring statements run as one script
        out = []
        for s in steps:
            if out and not out[-1]["settings"] and not s["settings"] and "read" not in out[-1] and "@" not in out[-1]["sql"] + s["sql"] and rng.random() < 0.25:
                s["sql"] = out.pop()["sql"] + ";\n" + s["sql"]
                self.hit("script")
            out.append(s)
        return out


def make(rng, i, tier):
    g = Gen(rng)
    g.n = rng.randint(3, 8)
    t = copy.deepcopy(g.tables)
    steps = g.history()
    return {"store": g.store, "tables": t, "steps": steps, "hits": g.hits}


def full(rows):
    return [dict({c: None for c in COLS}, **r) for r in rows]


def run(case, obs):
    for k, n in case["hits"].items():
        obs.hit(k, n)
    store = case["store"]
    d = os.path.join(harness.scratch(), "c13")
    config, mem = None, {k: v for k, v in case["tables"].items()}
    if store != "memory":
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    if store == "json":
        for k in ("t1", "t2"):
            with open(os.path.join(d, k + ".json"), "w") as fp:
                json.dump(mem.pop(k), fp)
    elif store == "sqlite":
        c = sqlite3.connect(os.path.join(d, "x.db"))
        for k in ("t1", "t2"):
            c.execute("create table %s (id integer, k integer, v integer, s text)" % k)
            c.executemany("insert into %s values (?,?,?,?)" % k, [[r[n] for n in COLS] for r in mem.pop(k)])
        c.commit()
        c.close()
        config = {"databases": [{"name": "sq", "driver": "sqlite", "database": os.path.join(d, "x.db")}]}
    try:
        e = eng.engine(mem, config=config)

        def contents(k):
            if k == "src" or store == "memory":
                return e.get_memory_datas(k) or []
            if store == "json":
                with open(os.path.join(d, k + ".json")) as fp:
                    return json.load(fp)
            c = sqlite3.connect(os.path.join(d, "x.db"))
            try:
                return [dict(zip(COLS, r)) for r in c.execute("select id, k, v, s from %s" % k)]
            finally:
                c.close()

        for n, st in enumerate(case["steps"]):
            obs.hit("steps")
            for k, v in st["settings"].items():
                e.set_variable(k, v)
            r = eng.attempt(e.execute, st["sql"].replace("{DIR}", d))
            for k in st["settings"]:
                e.set_variable(k, {"@batch": 0, "@insert_batch": 0}.get(k))
            if isinstance(r, eng.Raised):
                obs.fail("raised", "%s step %d raised %r" % (store, n, r), step=st, case=case)
                return
            if "read" in st:
                got = e.pop_memory_datas("ro")
                if not eng.same_rows(got, st["read"]):
                    obs.fail("read", "%s step %d: rows read back differ" % (store, n), step=st, got=got, want=st["read"], case=case)
                    return
            for k, want in st["after"].items():
                got = contents(k)
                if not eng.same_rows(full(got), full(want)):
                    obs.fail("contents", "%s: after step %d table %s does not hold the rows of the model" % (store, n, k), step=st, got=got, want=want, case=case)
                    return
        obs.nontrivial([s["sql"] for s in case["steps"]])
        obs.sample([s["sql"] for s in case["steps"]])
    finally:
        if store != "memory":
            shutil.rmtree(d, ignore_errors=True)


def probes(obs):
    for cond in ("v < 40", "v <> 10"):
        e = eng.engine({"t": [{"id": 1, "v": 10}, {"id": 2, "v": None}, {"id": 3, "v": 50}]})
        e.execute("delete from t where " + cond)
        got = [r["id"] for r in e.get_memory_datas("t")]
        want = {"v < 40": [2, 3], "v <> 10": [1, 2]}[cond]
        if got == want:
            continue
        if got == [i for i in want if i != 2]:
            obs.finding("pushdown-compare", "DELETE FROM t WHERE %s also deletes the row whose v is NULL" % cond)
        else:
            obs.fail("probe", "delete %s left ids %r" % (cond, got), want=want)

    rows = [{"id": i} for i in range(1, 4)]
    p = os.path.join(harness.scratch(), "self.json")
    with open(p, "w") as fp:
        json.dump(rows, fp)
    calls = []

    class Stop(BaseException):
        pass

    def guard(x):
        calls.append(x)
        if len(calls) > 60:
            raise Stop()
        return x
    e = eng.engine({}, settings={"@batch": 2})
    e.use("guard", guard)
    try:
        e.execute("insert into `file://%s` select guard(id) as id from `file://%s`" % (p, p))
    except Stop:
        obs.finding("self-insert-batch", "set @batch=2; INSERT INTO a JSON file SELECT ... FROM the same file never ends: it reads the rows it writes")
    os.unlink(p)
