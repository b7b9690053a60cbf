"""C28: columns are found by the name written, whatever its characters, and a path denotes the nested value."""
import copy, json, re
from vlib import eng, harness, pool, sqlmodel as M

META = {
    "id": "C28", "sizes": {"quick": 9000, "thorough": 120000}, "chunk": 60,
    "rule": "a statement of any kind (filters, expressions, joins, grouping, set operations, ordering, nesting, windows) was run over tables with plain column names, and again with every chosen column renamed to a name that needs quoting or moved into nested values and addressed by a path; the two results have to be the same; non-trivial = the result has rows; distinct by (SQL, rows)",
    "required": {"names": 2000, "paths": 2000, "rows": 10000, "path:member": 500, "path:deep": 300, "path:index": 300, "path:value": 200, "path:file": 100, "name:insert": 100, "name:file": 100, "list": 200, "columns": 200},
    "technique": "runtime monitoring: metamorphic oracle over real executions: the answer of the statement with plain columns decides the answer of the renamed and of the nested form",
    "note": "Plain-name semantics themselves are decided by C04-C11; this check decides that the spelling of a name and the place of a value inside a row do not change them.",
}
NAMES = ["my-k", "a b", " lead", "trail ", "order", "select", "group", "from", "where", "as", "null", "true", "values", "set", "é", "中文", "naïve col", "it's", 'q"r', "a,b", "a(b)", "(x)", "a$b", "@v", "a@b", "a#b", "#a", "--x", "a--b", "/*c*/", "a:b",
         "a;b", ";", "1", "2x", "007", "1.5x".replace(".", "_"), "count(*)", "max", "count", "id2", "_id", "__k__", "a=b", "a!b", "a%b", "%s", "a?b", "a/b", "a\\b", "a~b", "a^b", "a&b", "{x}", "${q}"[1:], "x y z", "case", "end", "in", "is",
         "limit", "K9", "MixedCase", "UPPER", "a__b", "x>1", "date", "time", "int", "interval", "key", "index", "row", "rows", "over", "partition", "window", "union", "distinct", "😀", "a\tb", "Ünï", "if", "left", "right", "yield_array", "t1", "vout"]
TARGETS = ["my out", "out-1", "order", "é", "中文", "select", "a b c", "it's", "table", "Out", "OUT_X", "x#y", "a$b", "a@b", "(x)", "a,b", "from"]
TOKEN = re.compile(r"'(?:[^'\\]|''|\\.)*'|`[^`]*`|[A-Za-z_]\w*|\d[\w.]*|\s+|.", re.S)


def aliases(sql):
    return set(re.findall(r"(?:\)|\bt\d|\bc\d)\s+(?:AS\s+)?([A-Za-z_]\w*)", sql)) | set(re.findall(r"\b([A-Za-z_]\w*)\.", sql)) | set(re.findall(r"(?:OVER|WINDOW|,)\s+([A-Za-z_]\w*)(?=\s+AS\s+\((?!SELECT))", sql)) | set(re.findall(r"OVER\s+([A-Za-z_]\w*)", sql))


def rename(sql, names):
    toks = TOKEN.findall(sql)
    out = []
    for i, t in enumerate(toks):
        if t in names and not (i + 1 < len(toks) and toks[i + 1] in ("(", ".")):
            t = "`%s`" % names[t]
        out.append(t)
    return "".join(out)


def make(rng, i, tier):
    kind = rng.choice(["names", "names", "paths", "paths", "list"]) if rng.random() < 0.85 else rng.choice(["names_insert", "names_file"])
    if kind == "list":
        return make_columns(rng) if rng.random() < 0.35 else make_list(rng)
    s = pool.statement(rng, i, tier)
    while kind == "paths" and s["qs"] is None:
        s = pool.statement(rng, i, tier)
    s["case"] = kind
    cols = sorted({c for rows in s["tables"].values() for r in rows for c in r})
    n = rng.randint(0, len(s["sqls"]) - 1)
    s["n"] = n
    if kind != "paths":
        sql = s["sqls"][n]
        words = set(re.findall(r"[A-Za-z_]\w*", re.sub(r"'(?:[^'\\]|''|\\.)*'", "", sql)))
        outs = {w for w in re.findall(r"\bAS ([a-z]+\d?)\b", sql) if w not in ("select",)}
        can = sorted((set(cols) | outs) & words - aliases(sql) - set(s["tables"]))
        pick = [c for c in can if rng.random() < 0.6] or can[:1]
        pool_names = rng.sample(NAMES, len(pick))
        s["map"] = dict(zip(pick, pool_names))
        s["target"] = rng.choice(TARGETS)
        return s
    s["style"] = rng.randint(0, 10 ** 9)
    s["some"] = rng.choice([0.4, 0.8, 1])
    return s


# ---------------------------------------------------------------- nested values
def base_tables(q, tables, env):
    """alias -> table name (base) or None (derived), for the sources of q, including outer ones"""
    env = dict(env)
    ctes = set(env.get("#cte", ())) | {n for n, _ in q.get("with") or []}
    env["#cte"] = ctes
    srcs = ([q["from_"]] if q.get("from_") else []) + [(src, alias) for _, src, alias, _ in q.get("joins") or []]
    own = []
    for src, alias in srcs:
        base = src[1] if src[0] == "table" and src[1] not in ctes and src[1] in tables else None
        env[alias or (src[1] if src[0] == "table" else None)] = base
        own.append(base)
    env[None] = own[0] if len(own) == 1 else None
    return env


def walk(e, f):
    """rebuilds an expression or query; f(col) on columns, queries handled by the caller through f.query"""
    if isinstance(e, dict):
        return f.query(e)
    if isinstance(e, tuple):
        if e and e[0] == "col":
            return f.col(e)
        if e and e[0] == "lit":
            return e
        return tuple(walk(x, f) for x in e)
    if isinstance(e, list):
        return [walk(x, f) for x in e]
    return e


class Onkeys:
    """columns of joined tables used in their ON condition"""
    def __init__(self, tables):
        self.tables, self.found, self.env = tables, set(), {}

    def col(self, e):
        return e

    def query(self, q):
        outer, self.env = self.env, base_tables(q, self.tables, self.env)
        for kind, src, alias, on in q.get("joins") or []:
            t = self.env.get(alias or (src[1] if src[0] == "table" else None))
            cs = []
            g = type("G", (), {})()
            g.col, g.query = (lambda e: cs.append(e) or e), (lambda x: x)
            walk(on, g)
            for c in cs:
                b = self.env.get(c[1])
                if b and (c[1] == alias or any("RIGHT" in x[0] for x in q["joins"])):
                    self.found.add((b, c[2]))
        for k in q:
            if k not in ("limit", "offset", "select") or isinstance(q[k], (list, dict)):
                walk(q[k], self)
        self.env = outer
        return q


class Pather:
    def __init__(self, tables, paths):
        self.tables, self.paths, self.env, self.used = tables, paths, {}, 0
        self.outs = None

    def col(self, e):
        if e[1] is None and self.outs and e[2] in self.outs:
            return e
        b = self.env.get(e[1])
        p = self.paths.get((b, e[2])) if b else None
        if p is None:
            return e
        self.used += 1
        if p[0] == "path":
            return ("col", e[1], "`%s`" % p[1])
        return ("func", "get_value", [("col", e[1], p[1])] + [("lit", x) for x in p[2]])

    def query(self, q):
        outer, self.env = (self.env, self.outs), base_tables(q, self.tables, self.env)
        out = {}
        outs = {a for _, a in q["select"]} if isinstance(q.get("select"), list) else set()
        for k, v in q.items():
            self.outs = outs if k in ("order", "having") else None
            out[k] = walk(v, self) if isinstance(v, (list, dict, tuple)) else v
        self.env, self.outs = outer
        return out


def has_star(e):
    if isinstance(e, dict):
        return e.get("select") == "*" or any(has_star(v) for v in e.values())
    if isinstance(e, (list, tuple)):
        return any(has_star(x) for x in e)
    return False


def nest(case):
    """(sql, nested tables, kinds of paths used) or None when the statement has no column that can be moved"""
    import random
    rng = random.Random(case["style"])
    q = case["qs"][case["n"]]
    if has_star(q) or plain_order(q):
        return None
    keys = Onkeys(case["tables"])
    keys.query(q)
    paths, tables, kinds = {}, {}, []
    for t, rows in case["tables"].items():
        cols = sorted({c for r in rows for c in r})
        moved = {}
        for c in cols:
            if (t, c) in keys.found or rng.random() > case["some"]:
                continue
            k = rng.choice(["member", "member", "deep", "index", "value", "valuedeep"])
            moved[c] = k
            if k == "member":
                paths[(t, c)] = ("path", "o.%s" % c)
            elif k == "deep":
                paths[(t, c)] = ("path", "o.in.x.%s" % c)
            elif k == "index":
                paths[(t, c)] = ("path", "l_%s.:%d" % (c, 1))
            elif k == "value":
                paths[(t, c)] = ("value", "o", [c])
            else:
                paths[(t, c)] = ("value", "o", ["in", "x", c])
        out = []
        for r in rows:
            n, o, x = {}, {}, {}
            for c, v in r.items():
                k = moved.get(c)
                gone = v is None and rng.random() < 0.5
                if k is None:
                    n[c] = v
                elif gone:
                    if k == "index":
                        n["l_" + c] = rng.choice([None, [], ["z"]])
                elif k == "index":
                    n["l_" + c] = ["z", v, "y"]
                elif k in ("member", "value"):
                    o[c] = v
                else:
                    x[c] = v
            if x or rng.random() < 0.5:
                o["in"] = {"x": x} if x or rng.random() < 0.5 else rng.choice([{}, None, {"x": None}])
            n["o"] = o if o or rng.random() < 0.5 else None
            out.append(n)
        tables[t] = out
    p = Pather(case["tables"], paths)
    q2 = p.query(q)
    if not p.used:
        return None
    sql = M.qsql(q2)
    kinds = (["member"] if "`o." in sql and re.search(r"`o\.(?!in\.)", sql) else []) + (["deep"] if "`o.in." in sql else []) + (["index"] if ".:1`" in sql else []) + (["value"] if "get_value" in sql else [])
    return sql, tables, kinds


def plain_order(q):
    """an ORDER BY (of any query inside) on a column that is not in the select list"""
    if isinstance(q, dict):
        outs = {a for _, a in q["select"]} if isinstance(q.get("select"), list) else None
        if q.get("order") and outs is not None and any(e[0] != "col" or e[1] is not None or e[2] not in outs for e, _ in q["order"]):
            return True
        return any(plain_order(v) for v in q.values())
    if isinstance(q, (list, tuple)):
        return any(plain_order(x) for x in q)
    return False


# ---------------------------------------------------------------- lists of members, slices
def make_list(rng):
    rows = []
    for i in range(rng.randint(1, 8)):
        l = [{"k": rng.randint(0, 5), "v": rng.choice(["p", "q", "r"]), "w": {"z": rng.randint(0, 3)}} for _ in range(rng.randint(0, 4))]
        n = [rng.randint(0, 9) for _ in range(rng.randint(0, 6))]
        rows.append({"id": i + 1, "l": l, "n": n, "o": {"n": n, "p": {"l": l}}} if rng.random() < 0.85 else rng.choice([{"id": i + 1, "l": None, "n": None, "o": None}, {"id": i + 1, "l": [], "n": [], "o": {}}]))
    picks = [pick_list(rng) for _ in range(rng.randint(1, 4))]
    return {"case": "list", "rows": rows, "picks": picks}


def pick_list(rng):
    i, j = rng.randint(0, 3), rng.randint(0, 5)
    return rng.choice([("at", i), ("at", -1), ("at", -rng.randint(1, 3)), ("slice", i, j), ("slice", i, i + 2), ("members", rng.choice("kv")), ("members2",), ("memberat", i, rng.choice("kv")), ("memberat2", i)]), rng.choice(["", "o.", "get", "oget"])


def run_list(case, obs):
    sel, refs = ["id"], []
    for k, (p, how) in enumerate(case["picks"]):
        text, ref = list_expr(p, how)
        if text is None:
            continue
        sel.append("%s AS c%d" % (text, k))
        refs.append(("c%d" % k, ref))
    sql = "SELECT %s FROM t" % ", ".join(sel)
    want = []
    for r in case["rows"]:
        w = {"id": r["id"]}
        for c, ref in refs:
            w[c] = ref(r)
        want.append(w)
    got = eng.attempt(eng.query, eng.engine({"t": copy.deepcopy(case["rows"])}), sql)
    obs.hit("list")
    obs.nontrivial(sql, case["rows"])
    if isinstance(got, eng.Raised) or got != want:
        d = got if isinstance(got, eng.Raised) else [(g, w) for g, w in zip(got, want) if g != w][:2] or (len(got), len(want))
        return obs.fail("list", "a path into a list does not give the element it names", sql=sql, diff=d, rows=case["rows"])


def list_expr(p, how):
    get = "get" in how
    pre = "o." if how.startswith("o") else ""

    def col(name):
        def f(r):
            v = r
            for x in name.split("."):
                v = v.get(x) if isinstance(v, dict) else None
            return v
        return f
    n, l = pre + "n", ("o.p.l" if pre else "l")
    if p[0] == "at":
        f = col(n)
        if get:
            args = [x if x.isdigit() else "'%s'" % x for x in n.split(".")[1:]] + [str(p[1])]
            if p[1] < 0:
                return None, None
            return "get_value(%s, %s)" % (n.split(".")[0], ", ".join(args)), lambda r: at(f(r), p[1])
        return "`%s.:%d`" % (n, p[1]), lambda r: at(f(r), p[1])
    if p[0] == "slice":
        f = col(n)
        if get:
            args = ["'%s'" % x for x in n.split(".")[1:]] + ["(%d, %d)" % p[1:]]
            return "get_value(%s, %s)" % (n.split(".")[0], ", ".join(args)), lambda r: cut(f(r), p[1], p[2])
        return "`%s.:%d:%d`" % (n, p[1], p[2]), lambda r: cut(f(r), p[1], p[2])
    f = col(l)
    if p[0] == "members":
        return "`%s.%s`" % (l, p[1]), lambda r: None if f(r) is None else [x[p[1]] for x in f(r)]
    if p[0] == "members2":
        return "`%s.w.z`" % l, lambda r: None if f(r) is None else [x["w"]["z"] for x in f(r)]
    if p[0] == "memberat":
        return "`%s.:%d.%s`" % (l, p[1], p[2]), lambda r: (at(f(r), p[1]) or {}).get(p[2])
    return "`%s.:%d.w.z`" % (l, p[1]), lambda r: ((at(f(r), p[1]) or {}).get("w") or {}).get("z")


def at(v, i):
    try:
        return v[i] if v is not None else None
    except IndexError:
        return None


def cut(v, i, j):
    return None if v is None else v[i:j]


# ---------------------------------------------------------------- running
def result(tables, sql, back, target="vout"):
    e = eng.engine(tables)
    got = eng.attempt(eng.query, e, sql, target)
    if isinstance(got, eng.Raised):
        return got
    return [[(back.get(k, k), v) for k, v in r.items()] for r in got]


def in_files(sql, tables):
    d, files = harness.scratch(), {}
    for t, rows in tables.items():
        if rows:
            files[t] = "%s/%s.json" % (d, t)
            with open(files[t], "w", encoding="utf-8") as f:
                json.dump(rows, f)
    return rename(sql, files), {t: rows for t, rows in tables.items() if t not in files}


def same(a, b):
    if isinstance(a, eng.Raised) or isinstance(b, eng.Raised):
        return isinstance(a, eng.Raised) and isinstance(b, eng.Raised)
    return [[(k, eng.norm(v)) for k, v in r] for r in a] == [[(k, eng.norm(v)) for k, v in r] for r in b]


def model(case):
    """What the plain statement means (where the engine's own answer for plain columns is a known finding)."""
    try:
        return [list(r.items()) for r in M.Model(case["tables"]).query(case["qs"][case["n"]])]
    except Exception:
        return None


def make_columns(rng):
    """INSERT with a column list: the k-th value goes under the k-th name written"""
    n = rng.randint(1, 4)
    names = []
    for _ in range(n):
        c = rng.choice(["id", "a", "val_1", "K"] if rng.random() < 0.25 else NAMES)
        if c not in names:
            names.append(c)
    rows = [{"id": i + 1, "a": rng.choice([0, 1, 2.5, -3, "x", "it's", "", None]), "b": rng.choice(["u", "v", "w w"])} for i in range(rng.randint(1, 6))]
    return {"case": "columns", "names": names, "rows": rows, "steps": [rng.choice(["values", "select", "select", "const", "where", "union", "sub", "cte"]) for _ in range(rng.randint(1, 3))],
            "vals": [[rng.choice([rng.randint(-5, 99), "p", "q q", None, 1.5, True]) for _ in range(n)] for _ in range(rng.randint(1, 3))],
            "pick": [rng.choice(["id", "a", "b"]) for _ in range(n)], "out": rng.choice(["o", "o"] + TARGETS), "mode": rng.choice(["", "", "<I>"])}


def run_columns(case, obs):
    names, rows, target = case["names"], case["rows"], case["out"]
    head = "INSERT INTO `%s%s` (%s) " % (target, case["mode"], ", ".join("`%s`" % c for c in names))
    sqls, want = [], []
    for step in case["steps"]:
        if step == "values":
            sqls.append(head + "VALUES " + ", ".join("(%s)" % ", ".join(const(v) for v in vs[:len(names)]) for vs in case["vals"]))
            want += [dict(zip(names, vs)) for vs in case["vals"]]
            continue
        # the same column twice needs two names in the select
        items = ["`%s` AS w%d" % (c, k) if case["pick"].count(c) > 1 or len(step) % 2 else c for k, c in enumerate(case["pick"][:len(names)])]
        get = [(lambda r, c=c: r[c]) for c in case["pick"][:len(names)]]
        frm, src = "t", rows
        if step == "const":
            items[-1], get[-1] = "'k' AS w9", lambda r: "k"
        elif step == "where":
            frm, src = "t WHERE id >= 2", [r for r in rows if r["id"] >= 2]
        elif step == "sub":
            frm = "(SELECT id, a, b FROM t) z"
        sel = "SELECT %s FROM %s" % (", ".join(items), frm)
        if step == "cte":
            sel = "WITH z AS (SELECT id, a, b FROM t) SELECT %s FROM z" % ", ".join(items)
        if step == "union":
            sel, src = sel + " UNION ALL " + sel + " WHERE id < 3", rows + [r for r in rows if r["id"] < 3]
        sqls.append(head + sel)
        want += [{c: g(r) for c, g in zip(names, get)} for r in src]
    e = eng.engine({"t": copy.deepcopy(rows)})

    def go():
        for sql in sqls:
            e.execute(sql)
        return e.get_memory_datas(target)
    got = eng.attempt(go)
    obs.hit("columns")
    obs.nontrivial(sqls, rows)
    if isinstance(got, eng.Raised) or [list(r.items()) for r in got] != [list(r.items()) for r in want] or any(type(a) is not type(b) for g, w in zip(got, want) for a, b in zip(g.values(), w.values())):
        d = got if isinstance(got, eng.Raised) else [(g, w) for g, w in zip(got, want) if g != w][:2] or (got[:3], want[:3], len(got), len(want))
        return obs.fail("columns", "a value is not stored under the column named for it", sql=sqls, diff=d, rows=rows)


def const(v):
    return "NULL" if v is None else "TRUE" if v is True else "'%s'" % v if isinstance(v, str) else repr(v)


def run(case, obs):
    if case["case"] == "list":
        return run_list(case, obs)
    if case["case"] == "columns":
        return run_columns(case, obs)
    sql = case["sqls"][case["n"]]
    base = result(case["tables"], sql, {})
    if isinstance(base, eng.Raised):
        return
    if case["case"] == "paths":
        n = nest(case)
        if n is None:
            return
        other, tables, kinds = n
        if case["style"] % 5 == 0:
            other, tables = in_files(other, tables)
            obs.hit("path:file")
        got = result(tables, other, {})
        obs.hit("paths")
        for k in kinds:
            obs.hit("path:" + k)
        kind, msg = "path", "addressing a nested value by its path gives another answer than the plain column"
    else:
        m = case["map"]
        if not m:
            return
        other = rename(sql, m)
        tables = {t: [{m.get(c, c): v for c, v in r.items()} for r in rows] for t, rows in case["tables"].items()}
        if case["case"] == "names_file":
            other, tables = in_files(other, tables)
            obs.hit("name:file")
        target = "vout"
        if case["case"] == "names_insert":
            target = case["target"]
            obs.hit("name:insert")
        got = result(tables, other, {v: k for k, v in m.items()}, target)
        obs.hit("names")
        kind, msg = "name", "a column whose name needs quotes gives another answer than one with a plain name"
    obs.hit("rows", len(base))
    if not same(base, got) and not (case["case"] == "paths" and model(case) is not None and same(model(case), got)):
        if isinstance(got, eng.Raised):
            d = got
        else:
            d = [(dict(g), dict(w)) for g, w in zip(got, base) if same([g], [w]) is False][:2] or (len(got), len(base))
        return obs.fail(kind, msg, sql=other, plain=sql, diff=d, tables=tables)
    if base:
        obs.nontrivial(other, base)
    obs.sample({"sql": other[:300], "rows": len(base)})
