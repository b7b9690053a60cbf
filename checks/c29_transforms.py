"""C29: a transform gets all rows of its subquery once and its rows are the answer; the built-in pivots; per-row functions are not transforms."""
import copy, json, os, re, sys, types
from vlib import eng, harness

META = {
    "id": "C29", "sizes": {"quick": 12000, "thorough": 150000}, "chunk": 60,
    "rule": "a transform (built-in pivot, registered TransformCalculater or imported function) was run over a generated subquery in a generated context, its calls recorded, its answer compared with the documented transform of the subquery's own rows; the subquery had rows",
    "required": {"calls": 1500, "rows": 15000, "v4h": 400, "h4v": 400, "v2h": 400, "h2v": 400, "uniqkv": 400, "user": 1500, "import": 300, "chain": 400, "empty": 100, "settings": 1000,
                 "ctx:top": 800, "ctx:cols": 300, "ctx:where": 250, "ctx:agg": 250, "ctx:order": 250, "ctx:cte": 300, "ctx:union": 300, "ctx:file": 150, "ctx:join": 150, "ctx:in": 100, "ctx:limit": 300,
                 "ctx:modes": 150, "perrow": 500},
    "technique": "runtime monitoring: recorded transform calls and engine answers compared with a model of the documented pivots applied to the subquery's own observed rows",
    "note": "Rows of the subquery itself are those the same engine answers for it (C04-C11 decide them). Limits not generated: NULL or non-text pivot headers, header values equal to column names, WHERE/ORDER BY on the transform's own select, transforms over plain tables.",
}
HEAD = ["ka", "kb", "kc", "kd", "k_e", "价"]
CALLS = []


def setup_functions():
    from syncany.calculaters import register_calculater, TransformCalculater

    class Base(TransformCalculater):
        def calculate(self, datas, *args):
            CALLS.append([self.f, copy.deepcopy(datas), list(args)])
            keys = list(datas[0].keys()) if isinstance(datas, list) and datas else []
            out, keys = MODEL[self.f](copy.deepcopy(datas), keys, *args)
            self.update_outputer_schema(keys)
            return out

    for name in USER:
        cls = type("T_" + name, (Base,), {"f": name})
        try:
            register_calculater(name)(cls)
        except Exception:
            pass
    m = types.ModuleType("c29_module")

    def whole(datas, *args):
        CALLS.append(["whole", copy.deepcopy(datas), list(args)])
        return MODEL["whole"](copy.deepcopy(datas), [], *args)[0]
    m.whole = whole
    sys.modules["c29_module"] = m


# ---------------------------------------------------------------- models
def m_rid(d, keys, start=1, name="row_id"):
    return [dict({name: i + start}, **r) for i, r in enumerate(d)], [name] + keys


def m_rev(d, keys):
    return d[::-1], keys


def m_none(d, keys):
    return [], keys


def m_dup(d, keys, n=2):
    return [dict(r, copy=j) for r in d for j in range(n)], keys + ["copy"]


def m_total(d, keys, *cols):
    return [dict({"n": len(d)}, **{"t_" + c: sum(r[c] for r in d if isinstance(r[c], (int, float)) and not isinstance(r[c], bool)) for c in cols})], ["n"] + ["t_" + c for c in cols]


def m_whole(d, keys, mark="z"):
    return [dict(r, id=mark) for r in d if r.get("id") is not None] if d and "id" in d[0] else d, keys


def v4h(d, keys, key, vkey, *reserved):
    res = [key, vkey] + list(reserved)
    return [dict({key: k, vkey: v}, **{c: r[c] for c in reserved}) for r in d for k, v in r.items() if k not in res], res


def h4v(d, keys, hkey, vkey, ikey=None):
    out, cur, cols, iv, started = [], None, [] if ikey is None else [ikey], None, False
    for r in d:
        h, v, i = r[hkey], r[vkey], r.get(ikey)
        if not started or h in cur or (ikey is not None and i != iv):
            if cur is not None:
                out.append(cur)
            cur, iv, started = ({} if ikey is None else {ikey: i}), i, True
        cur[h] = v
        if h not in cols:
            cols.append(h)
    if cur:
        out.append(cur)
    return out, cols


class Skip(Exception):
    """Not decided: the pivots of the external library fail on a number after a NULL in one cell."""


def add(cell, have, v):
    if have and isinstance(v, (int, float)) and not isinstance(cell, (int, float)):
        raise Skip
    if v is None and have:
        return cell
    if isinstance(v, (int, float)):
        return cell + v if have else v
    return v


def v2h(d, keys, hkey, vkey, value=None):
    hs, vs, cell = [], [], {}
    for r in d:
        h, v = r[hkey], r[vkey]
        hs.append(h) if h not in hs else None
        vs.append(v) if v not in vs else None
        cell[h, v] = cell.get((h, v), 0) + 1 if value is None else add(cell.get((h, v)), (h, v) in cell, r[value])
    return [dict({vkey: v}, **{h: cell.get((h, v), 0) for h in hs}) for v in vs], [vkey] + hs


def h2v(d, keys, hkey, vkey, value=None):
    return [dict({vkey: r[vkey], hkey: k}, **({value: x} if value else {})) for r in d for k, x in r.items() if k != vkey], [vkey, hkey] + ([value] if value else [])


def uniqkv(d, keys, ukey, kkey, value=None):
    out, by, cols = [], {}, list(keys)
    for r in d:
        u = r[ukey]
        if u not in by:
            by[u] = dict(r)
            out.append(by[u])
        h = r[kkey]
        by[u][h] = by[u].get(h, 0) + 1 if value is None else add(by[u].get(h), h in by[u], r[value])
        if h not in cols:
            cols.append(h)
    for r in out:
        for c in cols:
            r.setdefault(c, 0 if value is None else None)
    return out, cols


USER = ["tr_rid", "tr_rev", "tr_none", "tr_dup", "tr_total"]
MODEL = {"tr_rid": m_rid, "tr_rev": m_rev, "tr_none": m_none, "tr_dup": m_dup, "tr_total": m_total, "whole": m_whole,
         "v4h": v4h, "h4v": h4v, "v2h": v2h, "h2v": h2v, "uniqkv": uniqkv}


# ---------------------------------------------------------------- cases
def q(x):
    return str(x) if isinstance(x, int) else "'%s'" % x


def source(rng):
    """(subquery text, columns): text columns b, d with values usable as headers; numbers v, w; id unique in plain ones."""
    x = rng.random()
    o = rng.choice(["", "", " ORDER BY id", " ORDER BY id DESC", " ORDER BY b, id", " ORDER BY id LIMIT %d" % rng.randint(1, 12), " ORDER BY v DESC, id"])
    if x < 0.25:
        cols = ["id", "b", "d", "v"]
        rng.shuffle(cols)
        return "SELECT %s FROM t%s" % (", ".join(cols), o), cols
    if x < 0.4:
        w = rng.choice(["id > %d" % rng.randint(0, 9), "b = '%s'" % rng.choice(HEAD), "id <= %d" % rng.randint(-1, 6), "id %% 2 = %d" % rng.randint(0, 1), "d in ('ka','x')"])
        return "SELECT id, b, d, v FROM t WHERE %s%s" % (w, o), ["id", "b", "d", "v"]
    if x < 0.5:
        return "SELECT *  FROM t", ["id", "b", "d", "v"]
    if x < 0.62:
        return "SELECT b, d, sum(v) AS v, count(*) AS w FROM t GROUP BY b, d" + rng.choice(["", " ORDER BY b, d"]), ["b", "d", "v", "w"]
    if x < 0.74:
        return "SELECT y.id, y.b, z.w, y.d FROM t y %s JOIN e z ON y.b = z.b" % rng.choice(["LEFT", "INNER"]), ["id", "b", "w", "d"]
    if x < 0.82:
        return "SELECT id, b, d, v FROM t WHERE id < 4 UNION ALL SELECT id, b, d, v FROM t WHERE id > 2", ["id", "b", "d", "v"]
    if x < 0.88:
        return "SELECT DISTINCT b, d FROM t", ["b", "d"]
    if x < 0.94:
        return "SELECT u.id, u.b AS d, u.d AS b, u.v + 1 AS v FROM (SELECT id, b, d, v FROM t WHERE id <> 3) u", ["id", "d", "b", "v"]
    return "SELECT id, b, d, row_number() OVER (PARTITION BY b ORDER BY id) AS v FROM t", ["id", "b", "d", "v"]


def pick(rng, cols, depth=0):
    """(function, args, output columns that are known)"""
    nums = [c for c in cols if c in ("v", "w", "id")]
    f = rng.choice(["v4h", "h4v", "v2h", "h2v", "uniqkv", "tr_rid", "tr_rid", "tr_rev", "tr_dup", "tr_total", "tr_none", "whole"] if not depth else ["tr_rid", "tr_rev", "tr_dup", "h2v", "v4h"])
    if f == "v4h":
        args = ["key", "value"] + ([rng.choice(cols)] if rng.random() < 0.5 else [])
        return f, args, args
    if f == "h4v":
        i = rng.choice([None, "d", "b"] + (["id"] if "id" in cols else []))
        h = "b" if i == "d" else "d" if i == "b" else rng.choice(["b", "d"])
        i = i if len(cols) > 2 else None
        v = rng.choice([c for c in cols if c not in (h, i)])
        return f, [h, v] + ([i] if i else []), [i] if i else []
    if f == "v2h":
        h, v = rng.choice([("b", "d"), ("d", "b")] + ([("b", "id")] if "id" in cols else []))
        return f, [h, v] + ([rng.choice([c for c in cols if c not in (h, v)])] if len(cols) > 2 and rng.random() < 0.7 else []), [v]
    if f == "h2v":
        v = rng.choice(cols)
        args = ["hk", v] + (["hv"] if rng.random() < 0.6 else [])
        return f, args, args
    if f == "uniqkv":
        u = rng.choice(cols)
        k = rng.choice([c for c in ("b", "d") if c != u])
        return f, [u, k] + ([rng.choice(nums)] if nums and rng.random() < 0.7 else []), cols
    if f == "tr_rid":
        args = [[], [rng.randint(0, 9)], [100, "rid"]][rng.randint(0, 2)]
        return f, args, [args[1] if len(args) > 1 else "row_id"] + cols
    if f == "tr_dup":
        n = rng.randint(1, 3)
        return f, [n] if n != 2 or rng.random() < 0.5 else [], cols + ["copy"]
    if f == "tr_total":
        cs = rng.sample(nums, rng.randint(0, len(nums)))
        return f, cs, ["n"] + ["t_" + c for c in cs]
    if f == "whole":
        return f, [rng.choice(["z", "q q", 5])], cols
    return f, [], cols


def call(f, args):
    name = "um$whole" if f == "whole" else f if f.startswith("tr_") else "transform$" + f
    return "%s(%s)" % (name, ", ".join(q(a) for a in args))


def make(rng, i, tier):
    n = rng.choice([0, 1, 2, 3, 6, 10, 14])
    t = [{"id": j + 1, "b": rng.choice(HEAD[:rng.randint(1, 6)]), "d": rng.choice(["x", "y-1", "2022-01-01", "ka2", "_z"][:rng.randint(1, 5)]),
          "v": rng.choice([None, 0, 1, 2, 3, 5, -4, 1.5, 2.25])} for j in range(n)]
    if rng.random() < 0.4:
        rng.shuffle(t)
    e = [{"b": h, "w": rng.choice([None, 1, 2, 3])} for h in HEAD if rng.random() < 0.7] or [{"b": "ka", "w": 1}]
    st = {}
    if rng.random() < 0.4:
        st = rng.choice([{"@batch": rng.randint(1, 5)}, {"@streaming": 1}, {"@limit": 1000}, {"@join_batch": 1}, {"@insert_batch": rng.randint(1, 4)}, {"@batch": 2, "@insert_batch": 3}])
    c = {"tables": {"t": t, "e": e}, "set": st}
    if rng.random() < 0.12:
        c["kind"] = "perrow"
        c["sub"], c["alias"] = source(rng)[0], rng.choice(["x", "sub"])
        c["f"] = rng.choice([("reverse('ab')", "ba"), ("concat('a', 1)", "a1"), ("hex('a')", "61"), ("row_index()", None), ("pyeval('1 + 1')", 2), ("reverse(concat('a', 'b'))", "ba"),
                             ("uuid()", "unique"), ("repeat('a', 3)", "aaa"), ("sign(-5)", -1), ("char_length('ab')", 2),
                             ("utc_date()", "date"), ("yield_array(json_array(1, 2))", "yield"), ("json_array(1, 2)", [1, 2]), ("now()", "datetime")])
        return c
    c["kind"] = "transform"
    sub, cols = source(rng)
    c["sub"] = sub
    steps = [pick(rng, cols)]
    if rng.random() < 0.15:
        f0 = rng.choice(["tr_rid", "tr_rev", "tr_dup"])
        f, args, known = {"tr_rid": ("tr_rid", [1, "r0"], ["r0"] + cols), "tr_rev": ("tr_rev", [], cols), "tr_dup": ("tr_dup", [2], cols + ["copy"])}[f0]
        steps = [(f, args, known), pick(rng, known)]
    c["steps"] = [[f, a, k] for f, a, k in steps]
    c["as"] = rng.choice(["", " x", " AS x", " sub_1"])
    c["ctx"] = rng.choice(["top", "top", "top", "cols", "where", "agg", "order", "cte", "cte", "union", "file", "join", "in", "modes", "star", "limit", "limit"])
    c["r"] = rng.randint(0, 10 ** 6)
    return c


def tsql(c):
    s = c["sub"]
    for f, a, k in c["steps"]:
        s = "SELECT %s FROM (%s)%s" % (call(f, a), s, c["as"])
    return s


def init_worker(scratch):
    setup_functions()


def new(c):
    return eng.engine(c["tables"], config={"imports": {"um": "c29_module"}})


def apply(c, rows):
    want, cols, calls = rows, None, []
    for f, a, k in c["steps"]:
        keys = list(want[0].keys()) if want else []
        if f in USER or f == "whole":
            calls.append([f, copy.deepcopy(want), a])
        want, cols = MODEL[f](copy.deepcopy(want), keys, *a)
        if f == "whole":
            cols = None if not want else list(rows[0].keys()) if rows and len(c["steps"]) == 1 else list(want[0].keys())
        want = [{x: r.get(x) for x in cols} for r in want] if cols else want
    return want, cols, calls


def calls_same(got, want):
    return len(got) == len(want) and all(g[0] == w[0] and isinstance(g[1], list) and eng.same_rows(g[1], w[1], True) and eng.norm(g[2]) == eng.norm(w[2])
                                         and all(list(a) == list(b) for a, b in zip(g[1], w[1])) for g, w in zip(got, want))


def perrow(c, obs, base):
    text, want = c["f"]
    e = new(c)
    for k, v in c["set"].items():
        e.set_variable(k, v)
    out = eng.attempt(eng.query, e, "SELECT %s FROM (%s) %s" % (text, c["sub"], c["alias"]))
    obs.hit("perrow")
    sql = "SELECT %s FROM (%s) %s" % (text, c["sub"], c["alias"])
    n = len(base) * (2 if want == "yield" else 1)
    bad = isinstance(out, eng.Raised) or len(out) != n or any(len(r) != 1 for r in out)
    if not bad:
        vals = [list(r.values())[0] for r in out]
        if want == "unique":
            bad = len({str(v) for v in vals}) != len(vals)
        elif want is None:
            bad = not c["set"].get("@batch") and vals != list(range(1, n + 1))
        elif want == "yield":
            bad = vals != [1, 2] * len(base)
        elif want in ("date", "datetime"):
            bad = any(type(v).__name__ != want for v in vals)
        else:
            bad = any(eng.norm(v) != eng.norm(want) for v in vals)
    if bad:
        obs.fail("perrow", "%s over a subquery of %d rows gave %r" % (text, len(base), out if isinstance(out, eng.Raised) else out[:5]), sql=sql, settings=c["set"])
    if base:
        obs.nontrivial(c["sub"], c["ctx"] if "ctx" in c else c["f"], c.get("steps"), repr(c["tables"]))


def run(c, obs):
    CALLS.clear()
    base = eng.attempt(eng.query, new(c), c["sub"])
    if isinstance(base, eng.Raised):
        if not c["tables"]["t"]:
            base = []
        else:
            return obs.fail("base", "the subquery failed: %r" % base, sql=c["sub"])
    if c["kind"] == "perrow":
        return perrow(c, obs, base)
    for f, a, k in c["steps"]:
        obs.hit("user" if f in USER else "import" if f == "whole" else f)
    last = c["steps"][-1]
    if any(f == "whole" or f == "uniqkv" for f, _, _ in c["steps"]) and not base:
        return
    try:
        want, cols, calls = apply(c, base)
    except Skip:
        return obs.hit("skipped")
    T = tsql(c)
    ctx, known = c["ctx"], last[2]
    r = c["r"]
    if ctx in ("cols", "where", "agg", "order", "cte", "join", "in") and (not known or not want):
        ctx = "top"
    e = new(c)
    for k, v in c["set"].items():
        e.set_variable(k, v)
    CALLS.clear()
    a, b = (known[r % len(known)], known[r // 7 % len(known)]) if known else (None, None)
    ordered, pick_, mult = True, None, 1
    if ctx == "top":
        sql = T
        got = eng.attempt(eng.query, e, sql)
    elif ctx == "limit":
        n, m = r % 5, r // 7 % 3
        sql = T + (" LIMIT %d" % n if not m else " LIMIT %d OFFSET %d" % (n, m))
        got, want = eng.attempt(eng.query, e, sql), want[m:m + n]
    elif ctx == "star":
        sql = "SELECT * FROM (%s) z" % T
        got = eng.attempt(eng.query, e, sql)
    elif ctx == "cols":
        sql = "SELECT z.%s AS o1, %s AS o2 FROM (%s) z" % (a, b, T)
        got, want = eng.attempt(eng.query, e, sql), [{"o1": w[a], "o2": w[b]} for w in want]
    elif ctx == "cte":
        if r % 3 == 0:
            sql = "WITH y AS (%s) SELECT %s AS o1, %s AS o2 FROM y" % (T, a, b)
        else:
            sql = "WITH y AS (%s) SELECT z.%s AS o1, z.%s AS o2 FROM y z" % (T, a, b)
        got, want = eng.attempt(eng.query, e, sql), [{"o1": w[a], "o2": w[b]} for w in want]
    elif ctx == "where":
        vals = [w[a] for w in want if isinstance(w[a], (int, str)) and not isinstance(w[a], bool)]
        x = vals[r % len(vals)] if vals else None
        if x is None or any(isinstance(w[a], str) != isinstance(x, str) for w in want):
            sql, want = "SELECT z.%s AS o1 FROM (%s) z WHERE z.%s IS NOT NULL" % (b, T, a), [{"o1": w[b]} for w in want if w[a] is not None]
        else:
            sql, want = "SELECT z.%s AS o1 FROM (%s) z WHERE z.%s = %s" % (b, T, a, q(x)), [{"o1": w[b]} for w in want if w[a] == x]
        got = eng.attempt(eng.query, e, sql)
    elif ctx == "agg":
        sql = "SELECT z.%s AS o1, count(*) AS n FROM (%s) z GROUP BY z.%s" % (a, T, a)
        groups = {}
        for w in want:
            groups.setdefault(repr(eng.norm(w[a])), [w[a], 0])[1] += 1
        got, want = eng.attempt(eng.query, e, sql), [{"o1": g[0], "n": g[1]} for g in groups.values()]
    elif ctx == "order":
        types_ = {type(w[a]).__name__ for w in want} - {"NoneType"}
        if len(types_ - {"int", "float"}) and len(types_) > 1:
            sql = "SELECT z.%s AS o1, z.%s AS o2 FROM (%s) z LIMIT 3" % (a, b, T)
            want = [{"o1": w[a], "o2": w[b]} for w in want][:3]
        else:
            sql = "SELECT z.%s AS o1, z.%s AS o2 FROM (%s) z ORDER BY o1 DESC LIMIT 4" % (a, b, T)
            want = sorted([{"o1": w[a], "o2": w[b]} for w in want], key=lambda w: (w["o1"] is not None, w["o1"] if w["o1"] is not None else 0), reverse=True)[:4]
        got = eng.attempt(eng.query, e, sql)
    elif ctx == "union":
        sql = "%s UNION ALL %s" % (T, T)
        got, want, mult = eng.attempt(eng.query, e, sql), want + want, 2
    elif ctx == "join":
        sql = "SELECT m.n, z.%s AS o1 FROM nums m INNER JOIN (%s) z ON m.n = z.%s" % (a, T, b)
        keys = sorted({w[b] for w in want if isinstance(w[b], (int, str))}, key=repr)
        if not keys:
            return
        e.push_memory_datas("nums", [{"n": k} for k in keys])
        got, want = eng.attempt(eng.query, e, sql), [{"n": k, "o1": w[a]} for k in keys for w in want if eng.norm(w[b]) == eng.norm(k)]
        ordered = False
    elif ctx == "in":
        keys = sorted({w[b] for w in want if isinstance(w[b], (int, str))}, key=repr)
        if not keys or any(w[b] is None for w in want):
            return
        e.push_memory_datas("nums", [{"n": k} for k in keys + ["zz", -77]])
        sql = "SELECT n FROM nums WHERE n IN (SELECT %s FROM (%s) z)" % (b, T)
        got, want = eng.attempt(eng.query, e, sql), [{"n": k} for k in keys]
    elif ctx == "file":
        d = harness.scratch()
        p = os.path.join(d, "c29_%d.%s" % (os.getpid(), "json"))
        if os.path.exists(p):
            os.remove(p)
        sql = "INSERT INTO `%s` %s" % (p, T)
        got = eng.attempt(e.execute, sql)
        if not isinstance(got, eng.Raised):
            got = json.load(open(p)) if os.path.exists(p) else []
        if os.path.exists(p):
            os.remove(p)
    else:
        key = cols[0] if cols else None
        sql = "INSERT INTO `keep<I>` %s" % T
        first = eng.attempt(e.execute, sql)
        got = first if isinstance(first, eng.Raised) else eng.attempt(e.execute, sql)
        if not isinstance(got, eng.Raised):
            got = eng.attempt(e.pop_memory_datas, "keep")
        want, mult = want + want, 2
    obs.hit("ctx:" + ("top" if ctx == "star" else ctx))
    if not isinstance(got, eng.Raised):
        got = [dict({k: None for k in (want[0] if want else ())}, **r) for r in got or []]
    if not base and want and got == []:
        want = []
    detail = {"sql": sql, "tables": c["tables"], "settings": c["set"]}
    if isinstance(got, eng.Raised) or not eng.same_rows(got or [], want, ordered):
        return obs.fail("rows", "answer %r, the transform of the subquery's rows gives %r" % (got if isinstance(got, eng.Raised) else (got or [])[:6], want[:6]), **detail)
    if base and not calls_same(CALLS, calls * mult):
        return obs.fail("calls", "the transform was called with %r, expected %r" % ([(x[0], len(x[1]) if isinstance(x[1], list) else x[1], x[2]) for x in CALLS][:5],
                                                                                [(x[0], len(x[1]), x[2]) for x in calls * mult][:5]), **detail)
    obs.hit("calls", len(calls) * mult)
    obs.hit("rows", len(want))
    obs.hit("empty", not base)
    obs.hit("chain", len(c["steps"]) > 1)
    obs.hit("settings", bool(c["set"]))
    if base:
        obs.nontrivial(c["sub"], c["ctx"] if "ctx" in c else c["f"], c.get("steps"), repr(c["tables"]))
    if base:
        obs.sample("%s => %d rows" % (sql[:150], len(want)))
