"""C02: a literal denotes exactly its value, of its type, wherever it is written."""
from vlib import eng, harness

META = {
    "id": "C02", "sizes": {"quick": 22000, "thorough": 250000},
    "rule": "random literals (strings over quotes, escapes, control characters, comment markers, semicolons, look-alike numbers, dates, keywords, paths, format and substitution marks, unicode; integers to 2^70, decimals, exponents, hex, TRUE/FALSE/NULL) in 36 syntactic positions (select list with and without FROM, in functions, operators, CASE, IF, IN, BETWEEN, HAVING, ON, DELETE, INSERT VALUES / SELECT, aggregates, windows, UNION branches, subqueries, CTEs); non-trivial = literal is not plain alphanumeric text; distinct by statement",
    "required": {"strings": 12000, "numbers": 6000, "exact_type": 15000, "selective": 4000, "escapes": 4000},
    "technique": "runtime monitoring: value oracle over real statements (each position's result computed from the literal's value)",
    "note": "Literals are rendered by an independent writer from the intended value; the value and its python type must come back. Text of the form ${...} (a documented substitution also inside literals) is not generated.",
}
BITS = ["'", '"', "\\", "`", ";", "--", "#", "/*", "*/", "\n", "\r", "\t", "\0", " ", "  ", "a", "A", "bc", "0", "1", "-1", "1.50", "%", "_", "$", "$.", "{", "}", "@x", "@", ":", "|", "::", "&", "=", "select", "null", "true", ",", "(", ")", "[", "]",
        "\u00e9", "\u00ff", "\u6f22\u5b57", "\U0001f600", "\u200b", "\ufeff", "\x7f", "\x01", "n", "t", "x41", "u0041", "N", "''", "%s", "#const", "2020-01-01", "\\n", "\\x41", "\\u0041", "\\'", "int", "?", "!", "^", "~"]
WHOLE = ["", " ", "1", "01", "1.0", "-5", "1e3", "true", "TRUE", "false", "null", "NULL", "None", "2020-01-31", "2020-01-31 10:20:30", "10:20:30", "[1,2]", '{"a": 1}', "#const", "@current_env_variable::get_value", "$.id", "$.*", "id", "t.id", "&.t.id",
         ":$.*|int", "#if", "now()", "select 1", "x'41'", "0x41", "b'1'", "\\", "\\\\", "'", '"', "''", "it's", 'say "hi"', "C:\\new\\table", "a\\'b", "\\0", "\\d+\\.", "%d%%", "[int]", "a|int", "1 or 1=1", "' or ''='", "inf", "nan", "\u0661"]
ESC = {"\n": "\\n", "\t": "\\t", "\r": "\\r", "\0": "\\0"}


def string(rng):
    s = rng.choice(WHOLE) if rng.random() < 0.3 else "".join(rng.choice(BITS) for _ in range(rng.choice([1, 2, 3, 4, 6])))
    return s.replace("${", "{$").replace("raw(", "raw")


def number(rng):
    x = rng.random()
    if x < 0.4:
        return rng.randint(-20, 20)
    if x < 0.55:
        return rng.choice([0, 1, -1, 255, 2 ** 31 - 1, -2 ** 31, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63, 2 ** 64, 2 ** 70, 10 ** 18 + 1, 100000])
    return rng.choice([0.0, 0.5, -0.5, 1.5, -2.25, 3.14159, 0.1, 1e10, 1.5e-7, 123456.789, 100.0, 1.0, -7.125, 1e22])


def quoted(rng, s, obs=None):
    q = rng.choice("'''\"")
    out = ""
    for k, c in enumerate(s):
        if c == "\\":
            nxt = s[k + 1:k + 2]
            # a backslash before a character that is no escape stands for itself
            out += "\\" if nxt and nxt not in "ntrbfav0xuUN'\"\\\n\t\r\0\"01234567" and rng.random() < 0.3 else "\\\\"
        elif c == q:
            out += rng.choice([q + q, "\\" + q])
        elif c in "'\"":
            out += rng.choice([c, c, "\\" + c])
        elif c in ESC:
            # a NUL escape must not run into following digits
            out += rng.choice([c, ESC[c]]) if c != "\0" or not s[k + 1:k + 2].isdigit() else c
        elif rng.random() < 0.06 and ord(c) < 256 and (len(out) - len(out.rstrip("\\"))) % 2 == 0:
            out += "\\x%02x" % ord(c)
        elif rng.random() < 0.06 and 255 < ord(c) < 65536 and (len(out) - len(out.rstrip("\\"))) % 2 == 0:
            out += "\\u%04x" % ord(c)
        else:
            out += c
    if "${" in out:
        return quoted(rng, s)
    return q + out + q


def lit(rng, v):
    if v is None:
        return rng.choice(["NULL", "null"])
    if isinstance(v, bool):
        return rng.choice(["TRUE", "true"] if v else ["FALSE", "false"])
    if isinstance(v, int):
        if v >= 0 and rng.random() < 0.1:
            return hex(v) if v < 2 ** 31 else str(v)
        return str(v)
    if isinstance(v, float):
        r = repr(v)
        if v and rng.random() < 0.15 and "e" not in "%.17g" % v and float("%.17ge0" % v) == v:
            return "%.17ge0" % v
        return r.replace("e+", "e") if rng.random() < 0.5 else r
    return quoted(rng, v)


def value(rng):
    x = rng.random()
    return string(rng) if x < 0.62 else number(rng) if x < 0.9 else rng.choice([True, False, None, None])


def nn(rng):
    v = None
    while v is None:
        v = value(rng)
    return v


# position -> (sql with {0} {1} {2} for literals, expected rows from (values, table rows), kind of literals)
S, N, A = "s", "n", "a"
POS = {
    "select": ("SELECT {0} AS x, {1} AS y, {2} AS z", lambda v, t: [{"x": v[0], "y": v[1], "z": v[2]}], A),
    "select_from": ("SELECT id, {0} AS x, {1} AS y FROM t", lambda v, t: [{"id": r["id"], "x": v[0], "y": v[1]} for r in t], A),
    "select_from_only": ("SELECT {0} AS x FROM t", lambda v, t: [{"x": v[0]} for r in t], A),
    "array": ("SELECT json_array({0}, {1}, {2}) AS x FROM t WHERE id = 1", lambda v, t: [{"x": v}], A),
    "array_const": ("SELECT json_array({0}, {1}) AS x", lambda v, t: [{"x": v[:2]}], A),
    "concat": ("SELECT id, concat({0}, s, {1}) AS x FROM t", lambda v, t: [{"id": r["id"], "x": None if r["s"] is None else v[0] + r["s"] + v[1]} for r in t], S),
    "char_length": ("SELECT char_length({0}) AS x, length({1}) AS y", lambda v, t: [{"x": len(v[0]), "y": len(v[1].encode())}], S),
    "nested": ("SELECT id, ifnull(NULL, concat({0}, '')) AS x, coalesce(NULL, {1}) AS y FROM t", lambda v, t: [{"id": r["id"], "x": v[0], "y": v[1]} for r in t], S),
    "if": ("SELECT id, if(id > 1, {0}, {1}) AS x FROM t", lambda v, t: [{"id": r["id"], "x": v[0] if r["id"] > 1 else v[1]} for r in t], A),
    "case_values": ("SELECT id, CASE WHEN id > 2 THEN {0} WHEN id > 1 THEN {1} ELSE {2} END AS x FROM t", lambda v, t: [{"id": r["id"], "x": v[0] if r["id"] > 2 else v[1] if r["id"] > 1 else v[2]} for r in t], A),
    "case_when": ("SELECT id, CASE WHEN s = {0} THEN 1 WHEN {1} = s THEN 2 ELSE 3 END AS x FROM t", lambda v, t: [{"id": r["id"], "x": 1 if r["s"] == v[0] else 2 if r["s"] == v[1] else 3} for r in t], S),
    "case_base": ("SELECT id, CASE s WHEN {0} THEN 'one' WHEN {1} THEN 'two' ELSE {2} END AS x FROM t", lambda v, t: [{"id": r["id"], "x": "one" if r["s"] == v[0] else "two" if r["s"] == v[1] else v[2]} for r in t], S),
    "case_base_n": ("SELECT id, CASE n WHEN {0} THEN 'one' WHEN {1} THEN 'two' ELSE 'no' END AS x FROM t", lambda v, t: [{"id": r["id"], "x": "one" if r["n"] == v[0] else "two" if r["n"] == v[1] else "no"} for r in t], N),
    "eq_select": ("SELECT id, (s = {0}) AS x, ({1} = s) AS y FROM t WHERE s IS NOT NULL", lambda v, t: [{"id": r["id"], "x": int(r["s"] == v[0]), "y": int(r["s"] == v[1])} for r in t if r["s"] is not None], S),
    "arith": ("SELECT id, {0} + n AS x, {1} * 1 AS y FROM t WHERE n IS NOT NULL", lambda v, t: [{"id": r["id"], "x": v[0] + r["n"], "y": v[1] * 1} for r in t if r["n"] is not None], N),
    "where_eq": ("SELECT id FROM t WHERE s = {0}", lambda v, t: [{"id": r["id"]} for r in t if r["s"] == v[0]], S),
    "where_eq_rev": ("SELECT id FROM t WHERE {0} = s OR s = {1}", lambda v, t: [{"id": r["id"]} for r in t if r["s"] in v[:2]], S),
    "where_ne": ("SELECT id FROM t WHERE s <> {0} AND s != {1}", lambda v, t: [{"id": r["id"]} for r in t if r["s"] is not None and r["s"] != v[0] and r["s"] != v[1]], S),
    "where_in": ("SELECT id FROM t WHERE s IN ({0}, {1}, {2})", lambda v, t: [{"id": r["id"]} for r in t if r["s"] in v], S),
    "where_in1": ("SELECT id FROM t WHERE s IN ({0})", lambda v, t: [{"id": r["id"]} for r in t if r["s"] == v[0]], S),
    "where_not_in": ("SELECT id FROM t WHERE s NOT IN ({0}, {1})", lambda v, t: [{"id": r["id"]} for r in t if r["s"] is not None and r["s"] not in v[:2]], S),
    "where_n": ("SELECT id FROM t WHERE n = {0} OR n IN ({1}, {2})", lambda v, t: [{"id": r["id"]} for r in t if r["n"] in v], N),
    "where_expr": ("SELECT id FROM t WHERE concat(s, '') = {0}", lambda v, t: [{"id": r["id"]} for r in t if r["s"] == v[0]], S),
    "where_between": ("SELECT id FROM t WHERE concat(s, '') BETWEEN {0} AND {1}", lambda v, t: [{"id": r["id"]} for r in t if r["s"] is not None and v[0] <= r["s"] <= v[1]], S),
    "where_less": ("SELECT id FROM t WHERE concat(s, '') < {0}", lambda v, t: [{"id": r["id"]} for r in t if r["s"] is not None and r["s"] < v[0]], S),
    "having": ("SELECT s, count(*) AS c FROM t GROUP BY s HAVING s = {0} OR s = {1}", lambda v, t: grouped(t, lambda s: s in v[:2]), S),
    "having_in": ("SELECT s, count(*) AS c FROM t GROUP BY s HAVING s IN ({0}, {1})", lambda v, t: grouped(t, lambda s: s in v[:2]), S),
    "on": ("SELECT a.id, b.s AS x FROM t a LEFT JOIN u b ON a.id = b.id AND b.s = {0}", lambda v, t: [{"id": r["id"], "x": v[0] if r["s"] == v[0] else None} for r in t], S),
    "aggregate": ("SELECT max({0}) AS x, count({1}) AS y, group_concat({2}) AS z FROM t", lambda v, t: [{"x": v[0], "y": len(t), "z": ",".join([v[2]] * len(t))}], S),
    "window": ("SELECT id, lag(s, 1, {0}) OVER (ORDER BY id) AS x FROM t", lambda v, t: [{"id": r["id"], "x": t[k - 1]["s"] if k else v[0]} for k, r in enumerate(t)], S),
    "union": ("SELECT {0} AS x UNION ALL SELECT {1} AS x UNION ALL SELECT {2} AS x", lambda v, t: [{"x": y} for y in v], A),
    "union_distinct": ("SELECT {0} AS x FROM t UNION SELECT {1} AS x FROM t", lambda v, t: [{"x": y} for y in dict.fromkeys(v[:2])], S),
    "subquery": ("SELECT a.id, a.x FROM (SELECT id, {0} AS x FROM t) a WHERE a.x = {0}", lambda v, t: [{"id": r["id"], "x": v[0]} for r in t], S),
    "cte": ("WITH c AS (SELECT id, {0} AS x, s FROM t WHERE s = {1}) SELECT c.id, c.x, {2} AS y FROM c c", lambda v, t: [{"id": r["id"], "x": v[0], "y": v[2]} for r in t if r["s"] == v[1]], S),
    "scalar": ("SELECT id, (SELECT {0} AS q) AS x FROM t", lambda v, t: [{"id": r["id"], "x": v[0]} for r in t], S),
    "values": (None, None, A), "values2": (None, None, A), "delete": (None, None, S), "bitstring": (None, None, A),
}


def grouped(t, keep):
    out = {}
    for r in t:
        out[r["s"]] = out.get(r["s"], 0) + 1
    return [{"s": s, "c": c} for s, c in out.items() if s is not None and keep(s)]


def make(rng, i, tier):
    pos = rng.choice(list(POS))
    kind = POS[pos][2]
    pool = [string(rng) for _ in range(4)]
    vals = [rng.choice(pool + [string(rng)]) if kind == S else number(rng) if kind == N else value(rng) for _ in range(3)]
    rows = [{"id": k + 1, "s": None if rng.random() < 0.1 else rng.choice(pool + [v for v in vals if isinstance(v, str)]),
             "n": None if rng.random() < 0.1 else rng.choice([number(rng)] + [v for v in vals if isinstance(v, (int, float)) and not isinstance(v, bool)])} for k in range(rng.choice([1, 3, 5, 7]))]
    if pos in ("where_ne", "where_not_in"):
        for r in rows:                              # <> and NULL: see C04
            r["s"] = "" if r["s"] is None else r["s"]
    return {"pos": pos, "vals": vals, "lits": [lit(rng, v) for v in vals], "rows": rows}


def exact(g, w):
    if isinstance(w, (list, tuple)):
        return isinstance(g, list) and len(g) == len(w) and all(exact(a, b) for a, b in zip(g, w))
    if isinstance(w, bool) or isinstance(g, bool):
        return g is w
    if type(g) is not type(w):
        return False
    return g == w


def run(case, obs):
    pos, vals, lits, rows = case["pos"], case["vals"], case["lits"], case["rows"]
    sqlf, wantf, kind = POS[pos]
    obs.hit("pos_" + pos)
    obs.hit("strings", sum(isinstance(v, str) for v in vals))
    obs.hit("numbers", sum(isinstance(v, (int, float)) and not isinstance(v, bool) for v in vals))
    obs.hit("escapes", sum("\\" in l for l in lits))
    e = eng.engine({"t": rows, "u": rows})
    strict = kind == A or pos in ("subquery", "cte", "scalar", "window", "aggregate", "concat", "nested")
    if pos in ("values", "values2"):
        if pos == "values":
            sql = "INSERT INTO o (a, b) VALUES (%s, %s), (%s, %s)" % (lits[0], lits[1], lits[2], lits[0])
            want = [{"a": vals[0], "b": vals[1]}, {"a": vals[2], "b": vals[0]}]
        else:
            sql = "INSERT INTO o (id, a, b, c) VALUES (1, %s, %s, %s)" % tuple(lits)
            want = [{"id": 1, "a": vals[0], "b": vals[1], "c": vals[2]}]
        got = eng.attempt(e.execute, sql)
        if not isinstance(got, eng.Raised):
            got = e.get_memory_datas("o")
    elif pos == "delete":
        sql = "DELETE FROM t WHERE s = %s" % lits[0] if vals[1] > vals[2] else "DELETE FROM t WHERE s IN (%s, %s)" % (lits[0], lits[1])
        gone = [vals[0]] if vals[1] > vals[2] else vals[:2]
        want = [r for r in rows if r["s"] is None or r["s"] not in gone]
        got = eng.attempt(e.execute, sql)
        if not isinstance(got, eng.Raised):
            got = e.get_memory_datas("t")
    elif pos == "bitstring":
        n = len(str(vals[0])) * 7 + len(rows)
        sql = "SELECT 0x%x AS a, b'%s' AS b, x'%02x' AS c, json_array(0x%X) AS d" % (n, bin(n)[2:], n % 256, n)
        want, strict = [{"a": n, "b": n, "c": n % 256, "d": [n]}], True
        got = eng.attempt(eng.query, e, sql)
    else:
        sql, want = sqlf.format(*lits), wantf(vals, rows)
        got = eng.attempt(eng.query, e, sql)
    ok = not isinstance(got, eng.Raised) and len(got) == len(want)
    if ok:
        if strict:
            obs.hit("exact_type", len(want))
            ok = all(set(g) == set(w) and all(exact(g[k], w[k]) for k in w) for g, w in zip(got, want))
        else:
            ok = [eng.nrow(g) for g in got] == [eng.nrow(w) for w in want]
    if not ok:
        obs.fail("position:" + pos, "literal value lost in position %s" % pos, sql=sql, values=vals, got=got, want=want, rows=rows)
    if pos.startswith(("where", "having", "delete", "on", "case_when", "case_base")) and want:
        obs.hit("selective")
    if any(isinstance(v, str) and not v.isalnum() for v in vals) or any(isinstance(v, float) for v in vals):
        obs.nontrivial(sql)
        obs.sample({"sql": sql, "values": repr(vals)})


META["required"].update({"pos_" + k: 150 for k in POS})
