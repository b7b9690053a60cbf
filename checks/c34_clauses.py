"""C34: every clause of an accepted statement takes effect; one that is not supported is refused and nothing is written."""
import sqlite3
from vlib import eng

META = {
    "id": "C34", "sizes": {"quick": 9000, "thorough": 120000}, "chunk": 60,
    "rule": "a statement with a clause, modifier or operator from the edge of the dialect ran on the engine, and its meaning was answered by an independent SQL implementation (sqlite, by an equivalent statement where sqlite lacks the form); non-trivial = answered with rows, or refused; distinct by (form, place, outcome, rows)",
    "required": {"answered": 6000, "refused": 6000, "rows": 20000, "must": 4000, "place:top": 5000, "place:derived": 800, "place:cte": 800, "place:union": 500, "place:in": 300,
                 "untouched": 6000},
    "technique": "runtime monitoring: differential oracle over real executions (independent SQL engine, or the statement is refused), with a monitor that a refused statement wrote no row",
    "note": "Forms: USING/NATURAL joins, other join types, DISTINCT over windows, window frames, windows over aggregates, NULLS FIRST/LAST, QUALIFY, DISTINCT ON, ROLLUP/CUBE/GROUPING SETS, positions in GROUP BY and ORDER BY, set operations, FILTER, aggregates with separators, DISTINCT or several arguments, nested and misplaced aggregates, row and quantified comparisons, correlated subqueries with repeated conditions or set operations, column lists, LIMIT forms, star modifiers, INSERT and DELETE modifiers. The refusal may be any error. Known deviations of single values that other properties record (NULL in pushed down comparisons, ties of rank functions) are kept out of the data.",
}


def tables(rng):
    n = rng.randint(1, 9)
    ids = rng.sample(range(1, 14), n)
    t1 = [{"id": i, "k": rng.randint(0, 3), "a": rng.choice([None, 0, 1, 2, 3, 5, 5, -2]), "s": "x%d" % rng.randint(0, 3)} for i in ids]
    t2 = [{"id": i, "k": rng.randint(0, 4), "v": rng.choice([0, 1, 2, 3, 7, -1])} for i in rng.sample(range(1, 14), rng.randint(1, 8))]
    t3 = [{"id": i, "k": rng.randint(0, 3), "w": "w%d" % i} for i in rng.sample(range(1, 14), rng.randint(1, 7))]
    return {"t1": t1, "t2": t2, "t3": t3}


def wh(rng, p="", kw=" WHERE "):
    if rng.random() < 0.55:
        return ""
    return kw + rng.choice(["{p}k > 0", "{p}id > 3", "{p}k IN (0, 1, 2)", "{p}id % 2 = 1", "{p}k + {p}id > 5", "({p}k = 1 OR {p}id < 6)"]).format(p=p)


def F(sql, ref=None, cols=None, ordered=False, must=False, never=False):
    return {"sql": sql, "ref": ref or sql, "cols": cols, "ordered": ordered, "must": must, "never": never}


def f_using(rng):
    kind = rng.choice(["INNER JOIN", "LEFT JOIN", "JOIN"])
    rkind = "LEFT JOIN" if kind == "JOIN" else kind
    cols = rng.choice(["id", "k", "id, k"])
    w = wh(rng, "x.")
    src, y = rng.choice([("t2 y", "y.v"), ("t2 y", "y.v"), ("(SELECT id, k, v FROM t2 WHERE v > -1) y", "y.v"), ("t3 y", "y.w")])
    if rng.random() < 0.25:
        s = "SELECT x.k AS g, count(*) AS c, max(%s) AS m FROM t1 x %s %s USING (%s)%s GROUP BY x.k"
        return F(s % (y, kind, src, cols, w), s % (y, rkind, src, cols, w), ["g", "c", "m"], must=True)
    s = "SELECT x.id AS i, x.k AS g, %s AS v FROM t1 x %s %s USING (%s)%s"
    return F(s % (y, kind, src, cols, w), s % (y, rkind, src, cols, w), ["i", "g", "v"], must=True)


def f_using_more(rng):
    w = wh(rng, "x.")
    j = rng.choice(["SELECT x.id AS i, y.v AS v, z.w AS w FROM t1 x INNER JOIN t2 y USING (id) LEFT JOIN t3 z USING (id)%s",
                    "SELECT x.id AS i, y.v AS v, z.w AS w FROM t1 x LEFT JOIN t2 y USING (id) LEFT JOIN t3 z ON z.id = x.id%s",
                    "SELECT x.id AS i, y.v AS v, z.w AS w FROM t1 x INNER JOIN t2 y ON x.id = y.id INNER JOIN t3 z USING (id)%s"]) if rng.random() < 0.5 else \
        rng.choice(["SELECT x.id AS i, y.v AS v FROM t1 x RIGHT JOIN t2 y USING (id)%s", "SELECT k AS g, v AS v FROM t1 INNER JOIN t2 USING (id)%s",
                    "SELECT x.id AS i, y.v AS v FROM t1 x FULL JOIN t2 y USING (id)%s"])
    if "t1 INNER" in j:
        j, w = "SELECT a AS g, v AS v FROM t1 INNER JOIN t2 USING (id)%s", ""
    return F(j % w, j % w, None, must=False)


def f_natural(rng):
    kind = rng.choice(["NATURAL JOIN", "NATURAL INNER JOIN", "NATURAL LEFT JOIN"])
    al = rng.random() < 0.6
    s = "SELECT %s AS v, a AS g FROM t1%s %s t2%s" % ("y.v" if al else "v", " x" if al else "", kind, " y" if al else "")
    return F(s)


def f_jointype(rng):
    s = rng.choice(["SELECT x.id AS i, y.v AS v FROM t1 x FULL OUTER JOIN t2 y ON x.id = y.id", "SELECT x.id AS i, y.v AS v FROM t1 x RIGHT JOIN t2 y ON x.id = y.id",
                    "SELECT x.id AS i, y.v AS v FROM t1 x LEFT OUTER JOIN t2 y ON x.id = y.id", "SELECT x.id AS i, y.v AS v FROM t1 x CROSS JOIN t2 y",
                    "SELECT x.id AS i, y.v AS v FROM t1 x, t2 y WHERE x.id = y.id", "SELECT x.id AS i, y.v AS v FROM t1 x RIGHT OUTER JOIN t2 y ON x.id = y.id",
                    ("SELECT x.id AS i FROM t1 x LEFT SEMI JOIN t2 y ON x.id = y.id", "SELECT id AS i FROM t1 WHERE id IN (SELECT id FROM t2)"),
                    ("SELECT x.id AS i FROM t1 x SEMI JOIN t2 y ON x.id = y.id", "SELECT id AS i FROM t1 WHERE id IN (SELECT id FROM t2)"),
                    ("SELECT x.id AS i FROM t1 x LEFT ANTI JOIN t2 y ON x.id = y.id", "SELECT id AS i FROM t1 WHERE id NOT IN (SELECT id FROM t2)"),
                    ("SELECT x.id AS i FROM t1 x ANTI JOIN t2 y ON x.id = y.id", "SELECT id AS i FROM t1 WHERE id NOT IN (SELECT id FROM t2)")])
    return F(*s) if isinstance(s, tuple) else F(s)


def win(rng, qual=""):
    fn = rng.choice(["sum({0}id)", "count(*)", "max({0}k)", "min({0}id)", "sum({0}k)", "first_value({0}id)", "lag({0}id)", "lead({0}k)", "row_number()", "avg({0}k)"]).format(qual)
    part = rng.choice(["", "PARTITION BY %sk" % qual, "PARTITION BY %ss" % qual])
    order = rng.choice(["ORDER BY %sid" % qual, "ORDER BY %sid DESC" % qual, "ORDER BY %sk, %sid" % (qual, qual)])
    if not fn.startswith(("first", "lag", "lead", "row")) and rng.random() < 0.6:
        order = ""
    return "%s OVER (%s)" % (fn, " ".join(x for x in (part, order) if x))


def f_distinct_window(rng):
    n = rng.randint(1, 2)
    exprs = ["count(*) OVER (PARTITION BY k)", "max(id) OVER (PARTITION BY k)", "sum(k) OVER ()", "min(id) OVER (PARTITION BY s)", "sum(id) OVER (PARTITION BY k, s)"]
    if rng.random() < 0.3:
        exprs = [win(rng) for _ in range(3)]
    sel = ["%s AS z%d" % (e, j) for j, e in enumerate(rng.sample(exprs, n))]
    plain = rng.sample(["k", "s", "k + 1 AS kk", "id % 2 AS m"], rng.randint(0, 2))
    sel += plain
    names = [x.split(" AS ")[-1] for x in sel]
    order = ""
    if rng.random() < 0.4:
        order = " ORDER BY " + ", ".join(x + rng.choice(["", " DESC"]) for x in names)
        if rng.random() < 0.5:
            order += " LIMIT %d" % rng.randint(1, 4)
    return F("SELECT DISTINCT %s FROM t1%s%s" % (", ".join(sel), wh(rng), order), None, names, bool(order), must=True)


def f_distinct_window_join(rng):
    e = rng.choice(["count(*) OVER (PARTITION BY x.k)", "max(y.v) OVER (PARTITION BY x.k)", "min(x.id) OVER (PARTITION BY y.v)"])
    return F("SELECT DISTINCT x.k AS g, %s AS z FROM t1 x INNER JOIN t2 y ON x.id = y.id%s" % (e, wh(rng, "x.")), None, ["g", "z"], must=True)


BOUNDS = ["UNBOUNDED PRECEDING", "2 PRECEDING", "1 PRECEDING", "CURRENT ROW", "1 FOLLOWING", "2 FOLLOWING", "UNBOUNDED FOLLOWING"]


def f_frame(rng):
    fn = rng.choice(["sum(id)", "count(*)", "max(k)", "min(id)", "avg(id)", "first_value(id)", "last_value(id)", "count(s)", "lag(id)", "row_number()", "lead(id)", "nth_value(id, 2)"])
    order = rng.choice(["ORDER BY id", "ORDER BY id DESC", "ORDER BY k, id", "ORDER BY k", ""])
    if order == "ORDER BY k" and fn.startswith(("first", "last", "lag", "lead", "row", "nth")):
        order = "ORDER BY k DESC, id"
    if not order and fn.startswith(("first", "last", "lag", "lead", "row", "nth")):
        order = "ORDER BY id"
    kind = rng.choice(["ROWS", "ROWS", "RANGE"])
    must = False
    if rng.random() < 0.4:
        lo, hi = rng.choice([("UNBOUNDED PRECEDING", "CURRENT ROW"), ("UNBOUNDED PRECEDING", "UNBOUNDED FOLLOWING")])
        must = kind == "ROWS" and not fn.startswith("nth") and ((hi == "CURRENT ROW") == bool(order)) \
            and not fn.startswith(("first", "last", "lag", "lead", "row"))
    else:
        i = rng.randint(0, 5)
        j = rng.randint(max(i, 1), 6)
        lo, hi = BOUNDS[i], BOUNDS[j]
        if kind == "RANGE":
            lo, hi = rng.choice(["UNBOUNDED PRECEDING", "CURRENT ROW"]), rng.choice(["CURRENT ROW", "UNBOUNDED FOLLOWING"])
    if kind == "ROWS" and order == "ORDER BY k":
        order = "ORDER BY k, id"
    frame = "%s BETWEEN %s AND %s" % (kind, lo, hi) if rng.random() < 0.8 or hi != "CURRENT ROW" else "%s %s" % (kind, lo)
    part = rng.choice(["", "PARTITION BY k ", "PARTITION BY s "])
    spec = "%s%s %s" % (part, order, frame)
    if rng.random() < 0.25:
        return F("SELECT id AS i, %s OVER w AS z FROM t1 WINDOW w AS (%s)" % (fn, spec), None, ["i", "z"], must=False)
    return F("SELECT id AS i, %s OVER (%s) AS z FROM t1%s" % (fn, spec, wh(rng)), None, ["i", "z"], must=must)


def f_window_agg(rng):
    agg = rng.choice(["sum(id)", "count(*)", "max(id)"])
    s = rng.choice(["SELECT k AS g, sum(%s) OVER () AS z FROM t1%s GROUP BY k", "SELECT k AS g, %s AS n, row_number() OVER (ORDER BY %s, k) AS z FROM t1%s GROUP BY k",
                    "SELECT k AS g, %s AS n, row_number() OVER (ORDER BY n, k) AS z FROM t1%s GROUP BY k", "SELECT k AS g, lag(%s) OVER (ORDER BY k) AS z FROM t1%s GROUP BY k",
                    "SELECT k AS g, max(%s) OVER (PARTITION BY s) AS z FROM t1%s GROUP BY k, s"])
    w = wh(rng)
    ref = s
    if "ORDER BY n," in s:
        ref = s.replace("ORDER BY n,", "ORDER BY %s,")
        return F(s % (agg, w), ref % (agg, agg, w), None)
    return F(s % ((agg,) * (s.count("%s") - 1) + (w,)), None, None)


def f_window_place(rng):
    z = win(rng)
    s = rng.choice(["SELECT id AS i FROM t1 WHERE %s > 1", "SELECT k AS g, count(*) AS c FROM t1 GROUP BY k HAVING %s > 1", "SELECT id AS i, sum(%s) AS z FROM t1",
                    "SELECT count(*) AS c FROM t1 GROUP BY %s", "SELECT x.id AS i FROM t1 x INNER JOIN t2 y ON x.id = y.id AND %s > 1"])
    return F(s % z, None, None, never=True)


def f_nulls(rng):
    d, nl = rng.choice(["", " DESC", " ASC"]), rng.choice(["FIRST", "LAST"])
    must = (nl == "LAST") == (d == " DESC")
    if rng.random() < 0.3:
        fn = rng.choice(["row_number()", "lag(id)", "sum(id)", "first_value(id)"])
        return F("SELECT id AS i, %s OVER (%sORDER BY a%s NULLS %s, id) AS z FROM t1" % (fn, rng.choice(["", "PARTITION BY k "]), d, nl), None, ["i", "z"], must=must)
    return F("SELECT a AS a, id AS i FROM t1%s ORDER BY a%s NULLS %s, id%s" % (wh(rng), d, nl, rng.choice(["", " LIMIT 2", " LIMIT 1 OFFSET 1", " DESC", " DESC NULLS LAST LIMIT 3"])),
             None, ["a", "i"], True, must=must)


def f_qualify(rng):
    z, w = win(rng), wh(rng)
    return F("SELECT id AS i, k AS g FROM t1%s QUALIFY %s > 1" % (w, z), "SELECT i, g FROM (SELECT id AS i, k AS g, %s AS z FROM t1%s) WHERE z > 1" % (z, w), ["i", "g"])


def f_distinct_on(rng):
    w = wh(rng)
    return F("SELECT DISTINCT ON (k) k AS g, id AS i FROM t1%s ORDER BY k, id" % w, "SELECT k AS g, min(id) AS i FROM t1%s GROUP BY k ORDER BY k" % w, None)


def f_rollup(rng):
    w = wh(rng)
    form = rng.choice(["k WITH ROLLUP", "ROLLUP (k)", "CUBE (k)", "GROUPING SETS ((k), ())", "k WITH CUBE"])
    a = rng.choice(["sum(id)", "count(*)", "max(id)"])
    return F("SELECT k AS g, %s AS c FROM t1%s GROUP BY %s" % (a, w, form),
             "SELECT k AS g, %s AS c FROM t1%s GROUP BY k UNION ALL SELECT NULL, %s FROM t1%s HAVING count(*) > 0" % (a, w, a, w), None)


def f_position(rng):
    w = wh(rng)
    if rng.random() < 0.5:
        return F("SELECT k AS g, %s AS c FROM t1%s GROUP BY 1" % (rng.choice(["count(*)", "sum(id)"]), w), None, None)
    if rng.random() < 0.4:
        return F("SELECT k AS g, s AS s, count(*) AS c FROM t1%s GROUP BY %s" % (w, rng.choice(["1, 2", "k, 2", "2, 1"])), None, None)
    return F("SELECT k AS g, id AS i FROM t1%s ORDER BY %s" % (w, rng.choice(["1, 2", "1 DESC, 2", "k, 2 DESC", "2"])), None, None, True)


def f_setop(rng):
    op = rng.choice(["INTERSECT", "EXCEPT", "UNION", "UNION ALL", "UNION DISTINCT", "MINUS"])
    a, b = "SELECT k AS g FROM t1%s" % wh(rng), "SELECT k FROM t2%s" % wh(rng)
    rop = {"UNION DISTINCT": "UNION", "MINUS": "EXCEPT"}.get(op, op)
    tail = ""
    if rng.random() < 0.4:
        op2 = rng.choice(["UNION", "UNION ALL", "EXCEPT", "INTERSECT"])
        if "INTERSECT" not in (op, op2):
            tail = " %s SELECT k FROM t3" % op2
    return F("%s %s %s%s" % (a, op, b, tail), "%s %s %s%s" % (a, rop, b, tail), ["g"], must="EXCEPT" not in op + tail and "INTERSECT" not in op + tail and op != "MINUS")


def f_filter(rng):
    a = rng.choice(["count(*)", "sum(id)", "max(id)", "count(a)"])
    g = rng.random() < 0.6
    return F("SELECT %s%s FILTER (WHERE id > 3) AS z FROM t1%s" % ("k AS g, " if g else "", a, " GROUP BY k" if g else ""), None, None)


def f_agg_args(rng):
    c = rng.random()
    if c < 0.15:
        fn = rng.choice(["sum", "avg", "count", "max"])
        e = rng.choice(["%s(DISTINCT a) + 0", "%s(DISTINCT a) * count(*)", "count(*) + %s(DISTINCT k)", "%s(DISTINCT k) + max(id)"]) % fn
        return F("SELECT s AS g, %s AS z FROM t1 WHERE a IS NOT NULL GROUP BY s" % e, None, None)
    if c < 0.4:
        sep = rng.choice(["'-'", "';'", "','", "', '", "''"])
        fn = rng.choice(["group_concat(s, %s)", "string_agg(s, %s)"])
        return F("SELECT k AS g, %s AS z FROM t1 GROUP BY k" % (fn % sep), None, None)
    if c < 0.6:
        fn = rng.choice(["sum", "count", "max", "min", "avg"])
        return F("SELECT k AS g, %s(DISTINCT a) AS z FROM t1 WHERE k >= 0 GROUP BY k HAVING g >= 0" % fn, "SELECT k AS g, %s(DISTINCT a) AS z FROM t1 GROUP BY k" % fn, None, must=fn == "count")
    if c < 0.8:
        fn = rng.choice(["max(k, id)", "min(k, id)", "max(k, id, 3)"])
        return F("SELECT id AS i, %s AS z FROM t1" % fn, None, None)
    fn = rng.choice(["group_concat(id ORDER BY id DESC)", "group_concat(s ORDER BY id)", "group_concat(DISTINCT k)", "json_arrayagg(id ORDER BY id)"])
    ref = {"group_concat(id ORDER BY id DESC)": "group_concat(id, ',' ORDER BY id DESC)", "group_concat(s ORDER BY id)": "group_concat(s, ',' ORDER BY id)", "group_concat(DISTINCT k)": "group_concat(DISTINCT k)",
           "json_arrayagg(id ORDER BY id)": "json_group_array(id ORDER BY id)"}[fn]
    return F("SELECT k AS g, %s AS z FROM t1 GROUP BY k" % fn, "SELECT k AS g, %s AS z FROM t1 GROUP BY k" % ref, None)


def f_agg_place(rng):
    a = rng.choice(["sum(id)", "max(id)", "count(*)", "min(k)", "avg(id)"])
    s = rng.choice(["SELECT id AS i FROM t1 WHERE %s > 1", "SELECT sum(%s) AS z FROM t1", "SELECT k AS g, max(id + %s) AS z FROM t1 GROUP BY k", "SELECT k AS g, count(*) AS z FROM t1 WHERE k > 0 AND %s > 1 GROUP BY k",
                    "SELECT k AS g, min(%s) AS z FROM t1 GROUP BY k", "SELECT id AS i FROM t1 WHERE k IN (1, %s)"])
    return F(s % a, None, None, never=True)


def f_rowcmp(rng):
    n = rng.choice(["", "NOT "])
    s = rng.choice(["SELECT id AS i FROM t1 WHERE (id, k) %sIN (SELECT id, k FROM t2)" % n, "SELECT id AS i FROM t1 WHERE (id, k) = (SELECT id, k FROM t2 ORDER BY id LIMIT 1)",
                    "SELECT id AS i FROM t1 WHERE (id, k) %sIN ((1, 1), (2, 0), (3, 3), (5, 2))" % n,
                    ("SELECT id AS i FROM t1 WHERE id > ALL (SELECT k FROM t2)", "SELECT id AS i FROM t1 WHERE id > (SELECT max(k) FROM t2)"),
                    ("SELECT id AS i FROM t1 WHERE id = ANY (SELECT id FROM t2)", "SELECT id AS i FROM t1 WHERE id IN (SELECT id FROM t2)"),
                    ("SELECT id AS i FROM t1 WHERE id < SOME (SELECT k FROM t2)", "SELECT id AS i FROM t1 WHERE id < (SELECT max(k) FROM t2)")])
    if rng.random() < 0.3:      # values and columns mixed within the rows
        v, w = rng.randint(0, 3), rng.randint(1, 5)
        s = rng.choice(["(%d, k) = (id, k)" % w, "(id, k) = (%d, k)" % w, "(%d, id) = (k, %d)" % (v, w), "(id, k) %sIN ((%d, k), (2, 0))", "(%d, id) %sIN ((k, %d), (k, 2))", "(k, id) %sIN ((%d, %d), (k, 4))"])
        s = s.replace("(id, k) %sIN ((%d,", "(id, k) " + n + "IN ((%d," % w).replace("(%d, id) %sIN ((k, %d)", "(%d, id) " % v + n + "IN ((k, %d)" % w).replace("(k, id) %sIN ((%d, %d)", "(k, id) " + n + "IN ((%d, %d)" % (v, w))
        s = "SELECT id AS i FROM t1 WHERE " + s
        return F(s, s if " IN " not in s else s.replace("IN ((", "IN (VALUES (", 1), ["i"])
    if isinstance(s, str) and "((1, 1)" in s:
        return F(s, s.replace("IN ((1, 1), (2, 0), (3, 3), (5, 2))", "IN (VALUES (1, 1), (2, 0), (3, 3), (5, 2))"), ["i"])
    return F(*s, cols=["i"]) if isinstance(s, tuple) else F(s, None, ["i"])


def f_correlated(rng):
    c = rng.choice(["y.k = x.k AND x.k = y.k", "y.k = x.k AND y.k = x.k", "x.k = y.k AND y.v > 0 AND y.k = x.k", "y.k = x.k AND y.id > 2 AND y.k = x.k", "y.id = x.id AND y.k = x.k AND x.id = y.id"])
    w = wh(rng, "x.")
    form = rng.choice(["SELECT x.id AS i, (SELECT max(y.v) FROM t2 y WHERE {c}) AS z FROM t1 x{w}", "SELECT x.id AS i FROM t1 x WHERE EXISTS (SELECT 1 FROM t2 y WHERE {c})",
                       "SELECT x.id AS i FROM t1 x WHERE x.id IN (SELECT y.id FROM t2 y WHERE {c})", "SELECT x.id AS i, (SELECT sum(y.v) FROM t2 y WHERE {c}) AS z FROM t1 x{w}"])
    return F(form.format(c=c, w=w), None, None)


def f_correlated_union(rng):
    op = rng.choice(["UNION", "UNION ALL"])
    form = rng.choice(["SELECT x.id AS i FROM t1 x WHERE EXISTS (SELECT y.id FROM t2 y WHERE y.k = x.k {op} SELECT z.id FROM t3 z WHERE z.k = x.k)",
                       "SELECT x.id AS i FROM t1 x WHERE x.id IN (SELECT y.id FROM t2 y WHERE y.k = x.k {op} SELECT z.id FROM t3 z WHERE z.k = x.k)",
                       "SELECT x.id AS i FROM t1 x WHERE x.id IN (SELECT y.id FROM t2 y WHERE y.k > 1 {op} SELECT z.id FROM t3 z WHERE z.k = x.k)",
                       "SELECT x.id AS i FROM t1 x WHERE x.id IN (SELECT y.id FROM t2 y {op} SELECT z.id FROM t3 z)"])
    return F(form.format(op=op), None, ["i"])


def f_columns(rng):
    s = rng.choice([("SELECT p AS p, q AS q FROM t2 y(p, q)", "SELECT id AS p, k AS q FROM t2"), ("SELECT y.p AS p FROM t1 x INNER JOIN t2 y(p, q) ON y.p = x.id", "SELECT y.id AS p FROM t1 x INNER JOIN t2 y ON y.id = x.id"),
                    ("SELECT y.p AS p, y.q AS q FROM (SELECT id, k FROM t2) y(p, q)", "SELECT id AS p, k AS q FROM t2"),
                    ("WITH y(p, q) AS (SELECT id, k FROM t2) SELECT p AS p, q AS q FROM y", None),
                    ("SELECT y.p AS p FROM (SELECT id, k FROM t2) y(p)", "INVALID"), ("WITH y(p, q, r) AS (SELECT id, k FROM t2) SELECT p AS p FROM y", "INVALID")])
    if s[1] == "INVALID":
        return F(s[0], None, None, never=True)
    return F(s[0], s[1], None)


def f_star(rng):
    s = rng.choice([("SELECT * EXCEPT (id) FROM t2", "SELECT k, v FROM t2"), ("SELECT * REPLACE (1 AS v) FROM t2", "SELECT id, k, 1 AS v FROM t2"), ("SELECT * EXCLUDE (v) FROM t2", "SELECT id, k FROM t2"),
                    ("SELECT * FROM t2", None)])
    return F(s[0], s[1], None)


def f_limit(rng):
    n, m = rng.randint(0, 4), rng.randint(0, 4)
    base = "SELECT id AS i, k AS g FROM t1%s ORDER BY id" % wh(rng)
    s = rng.choice([("LIMIT %d" % n,) * 2, ("LIMIT %d, %d" % (m, n), "LIMIT %d OFFSET %d" % (n, m)), ("LIMIT %d OFFSET %d" % (n, m),) * 2, ("FETCH FIRST %d ROWS ONLY" % (n or 1), "LIMIT %d" % (n or 1)),
                    ("OFFSET %d" % m, "LIMIT -1 OFFSET %d" % m), ("FETCH FIRST %d ROWS WITH TIES" % (n or 1), "LIMIT %d" % (n or 1)), ("LIMIT %d + 1" % n, "LIMIT %d" % (n + 1)),
                    ("LIMIT %d FOR UPDATE" % n, "LIMIT %d" % n), ("LIMIT %d OFFSET %d ROWS" % (n, m), "LIMIT %d OFFSET %d" % (n, m))])
    return F(base + " " + s[0], base + " " + s[1], ["i", "g"], True, must=s[0].count("LIMIT") == 1 and s[0] == s[1] and n > 0)


def f_sortby(rng):
    s = rng.choice(["SORT BY", "CLUSTER BY", "DISTRIBUTE BY"])
    return F("SELECT id AS i, k AS g FROM t1 %s id" % s, "SELECT id AS i, k AS g FROM t1 ORDER BY id", None, True)


def f_expr(rng):
    s = rng.choice([("s LIKE 'x!1' ESCAPE '!'", None), ("a IS DISTINCT FROM 1", "a IS NOT 1"), ("a IS NOT DISTINCT FROM 1", "a IS 1"), ("s GLOB 'x[12]'", None), ("k BETWEEN SYMMETRIC 2 AND 1", "k BETWEEN 1 AND 2"),
                    ("s SIMILAR TO 'x1'", "s = 'x1'"), ("s || 'z' = 'x1z'", None), ("k = 1 XOR id > 3", "(k = 1) <> (id > 3)"), ("s ILIKE 'X1'", "s LIKE 'X1'"), ("s COLLATE nocase = 'X1'", None),
                    ("position('1' IN s) = 2", "instr(s, '1') = 2"), ("trim(LEADING 'x' FROM s) = '1'", "ltrim(s, 'x') = '1'"), ("a <=> 1", "a IS 1"), ("id DIV 2 = 1", "id / 2 = 1"),
                    ("a ISNULL", "a IS NULL"), ("a NOTNULL", "a IS NOT NULL"), ("NOT (k = 1 AND id > 3)", None), ("s LIKE ANY ('x1', 'x2')", "s IN ('x1', 'x2')"), ("k IN (1, 2) IS TRUE", None),
                    ("~k < -1", None), ("k << 1 = 4", None), ("(id & 3) | 1 = 3", None), ("s NOT REGEXP 'x[01]'", "s NOT IN ('x0', 'x1')"), ("s RLIKE 'x[01]'", "s IN ('x0', 'x1')"),
                    ("s IN ('x1') AND NOT s IN ('x2')", None), ("CASE WHEN k > 1 THEN id END > 3", None)])
    sql, ref = s[0], s[1] or s[0]
    if "SYMMETRIC" in sql:
        return None
    return F("SELECT id AS i, k AS g FROM t1 WHERE %s" % sql, "SELECT id AS i, k AS g FROM t1 WHERE %s" % ref, ["i", "g"])


def f_having(rng):
    w = wh(rng)
    if rng.random() < 0.1:
        return F("SELECT k AS g, count(*) AS c FROM t1%s GROUP BY k HAVING %s" % (w, rng.choice(["c > zz", "c = y.k", "zz < c", "c + zz > 1", "c IN (1, zz)"])), None, None, never=True)
    s = rng.choice(["SELECT k AS g, count(*) AS c FROM t1{w} GROUP BY k, s HAVING c > length(s) - 2", "SELECT k AS g, count(*) AS c FROM t1{w} GROUP BY k, id HAVING c < id", "SELECT k AS g FROM t1{w} GROUP BY k HAVING max(id) > 6", "SELECT k AS g, count(*) AS c FROM t1{w} GROUP BY k HAVING max(id) > 6", "SELECT k AS g, count(*) AS c FROM t1{w} GROUP BY k HAVING min(id) < 5 AND c > 1",
                    "SELECT k AS g, count(*) AS c FROM t1{w} GROUP BY k, s HAVING s = 'x1'", "SELECT k AS g, count(*) AS c FROM t1{w} GROUP BY k HAVING c > 1 OR sum(id) > 9", "SELECT k AS g, max(id) AS m FROM t1{w} GROUP BY k HAVING m + g > 5",
                    "SELECT k AS g, sum(id) AS m FROM t1{w} GROUP BY k HAVING NOT m > 8", "SELECT k AS g, sum(id) AS m FROM t1{w} GROUP BY k HAVING count(DISTINCT s) > 1", "SELECT k AS g, max(id) AS m FROM t1{w} GROUP BY k HAVING k > 1",
                    "SELECT k AS g, max(id) AS m FROM t1{w} GROUP BY k HAVING m IN (SELECT id FROM t2)", "SELECT k AS g, max(id) AS m FROM t1{w} GROUP BY k HAVING CASE WHEN m > 5 THEN 1 ELSE 0 END = 1",
                    "SELECT k AS g, max(id) AS m FROM t1{w} GROUP BY k HAVING m > (SELECT min(id) FROM t2)", "SELECT k AS g, max(id) AS m FROM t1{w} GROUP BY k HAVING m BETWEEN 3 AND 9 AND g <> 2"])
    return F(s.format(w=w), None, None)


def f_on(rng):
    kind = rng.choice(["INNER JOIN", "LEFT JOIN"])
    c = rng.choice(["x.id = y.id AND x.k > y.k", "x.k = y.k AND x.id < y.id", "x.id = y.id AND y.v > 0", "x.id = y.id AND x.k > 1", "x.id = y.id AND y.v IN (1, 2, 3)", "x.id = y.id AND (y.v > 1 OR x.k = 1)",
                    "x.id = y.id AND x.k + y.k > 2", "x.id = y.id AND y.v BETWEEN 0 AND 3", "x.id = y.id AND NOT y.v = 1", "x.id = y.id AND x.k <> y.k", "x.id = y.id AND x.id IN (SELECT id FROM t3)",
                    "x.id = y.id AND y.v = (SELECT max(v) FROM t2)", "x.id = y.id AND x.k <> 1", "x.id = y.id AND x.k = 2 AND y.v <> 7", "x.id = y.id AND EXISTS (SELECT 1 FROM t3 z WHERE z.id = x.id)", "x.id = y.id AND x.k < 2 AND y.v > 0 AND x.k < y.v"])
    return F("SELECT x.id AS i, y.v AS v FROM t1 x %s t2 y ON %s%s" % (kind, c, wh(rng, "x.")), None, ["i", "v"])


def f_window_distinct(rng):
    fn, part = rng.choice(["count", "sum", "max", "min", "avg"]), rng.choice(["s", "k"])
    c = "k" if part == "s" else "a"
    return F("SELECT id AS i, %s(DISTINCT %s) OVER (PARTITION BY %s) AS z FROM t1" % (fn, c, part), "SELECT x.id AS i, (SELECT %s(DISTINCT y.%s) FROM t1 y WHERE y.%s = x.%s) AS z FROM t1 x" % (fn, c, part, part), None)


def f_order_expr(rng):
    w = wh(rng)
    s = rng.choice(["SELECT id AS i FROM t1{w} ORDER BY k + id, id", "SELECT id AS i, k + id AS q FROM t1{w} ORDER BY q DESC, id", "SELECT id AS i FROM t1{w} ORDER BY k, id", "SELECT id AS i FROM t1{w} ORDER BY -id", "SELECT id AS i FROM t1{w} ORDER BY s DESC, id DESC",
                    "SELECT id AS i, k + id AS q FROM t1{w} ORDER BY k + id, id", "SELECT k AS g, count(*) AS c FROM t1{w} GROUP BY k ORDER BY max(id)", "SELECT k AS g, max(id) AS c FROM t1{w} GROUP BY k ORDER BY max(id) DESC",
                    "SELECT k AS g, count(*) AS c FROM t1{w} GROUP BY k ORDER BY count(*), g", "SELECT id AS i FROM t1{w} ORDER BY CASE WHEN k > 1 THEN 0 ELSE 1 END, id", "SELECT id AS i FROM t1{w} ORDER BY (SELECT max(v) FROM t2), id",
                    "SELECT id AS i FROM t1{w} ORDER BY k DESC, s, id LIMIT 3", "SELECT x.id AS i, y.v AS v FROM t1 x INNER JOIN t2 y ON x.id = y.id ORDER BY y.v, x.id", "SELECT x.id AS i FROM t1 x INNER JOIN t2 y ON x.id = y.id ORDER BY y.v DESC, x.id",
                    "SELECT DISTINCT k AS g FROM t1{w} ORDER BY k DESC", "SELECT k AS g FROM t1 UNION SELECT k FROM t2 ORDER BY g DESC", "SELECT k AS g FROM t1 UNION ALL SELECT k FROM t2 ORDER BY k LIMIT 3", "SELECT id AS i FROM t1{w} ORDER BY abs(id - 6), id"])
    return F(s.format(w=w), None, None, True)


def f_subplace(rng):
    s = rng.choice(["SELECT id FROM (SELECT id, k FROM t1)", "SELECT q.id AS i FROM (SELECT id, k FROM t1) q WHERE q.k > 1", "SELECT (SELECT max(v) FROM t2) AS z, id AS i FROM t1", "SELECT id AS i FROM t1 WHERE k > (SELECT min(k) FROM t2) AND id IN (SELECT id FROM t3)",
                    "SELECT count(*) AS c FROM t1 GROUP BY (SELECT max(v) FROM t2)", "SELECT sum((SELECT max(v) FROM t2)) AS z FROM t1", "SELECT CASE WHEN id IN (SELECT id FROM t2) THEN 1 ELSE 0 END AS z, id AS i FROM t1", "SELECT id AS i FROM t1 WHERE NOT EXISTS (SELECT 1 FROM t2 y WHERE y.id = t1.id)",
                    "SELECT x.id AS i FROM t1 x WHERE NOT EXISTS (SELECT 1 FROM t2 y WHERE y.id = x.id)", "SELECT x.id AS i FROM t1 x WHERE x.id IN (SELECT y.id FROM t2 y WHERE y.k = x.k AND y.v > 0)", "SELECT id AS i, (SELECT max(v) FROM t2 y WHERE y.k = t1.k) AS z FROM t1",
                    "SELECT x.id AS i FROM t1 x INNER JOIN (SELECT k, max(id) AS m FROM t2 GROUP BY k) y ON x.id = y.m", "SELECT x.id AS i FROM t1 x WHERE (SELECT max(v) FROM t2) > x.k", "SELECT x.id AS i FROM t1 x, (SELECT id FROM t2) y WHERE x.id = y.id",
                    "SELECT x.id AS i FROM t1 x, t2 y, t3 z WHERE x.id = y.id AND y.id = z.id", "SELECT max(id) AS m FROM (SELECT id FROM t1 UNION ALL SELECT id FROM t2) q", "SELECT id AS i FROM t1 WHERE id IN (SELECT id FROM t2 UNION SELECT id FROM t3)",
                    "SELECT id AS i FROM t1 WHERE id = (SELECT max(id) FROM t1)", "SELECT id AS i FROM t1 WHERE k IN (SELECT max(k) FROM t2)", "SELECT id AS i FROM t1 WHERE id NOT IN (SELECT id FROM t2 WHERE v > 0)"])
    return F(s, None, None)


def f_dml(rng):
    """Statements that write: the target t9 afterwards is what the statement says, or it is untouched and the statement was refused."""
    src = "SELECT id, k, v FROM t2%s" % wh(rng)
    t = "t9"
    c = rng.choice([("INSERT OVERWRITE TABLE t9 %s" % src, ["DELETE FROM t9", "INSERT INTO t9 %s" % src]), ("INSERT OVERWRITE t9 %s" % src, ["DELETE FROM t9", "INSERT INTO t9 %s" % src]),
                    ("INSERT INTO t9 %s" % src, None), ("INSERT INTO t9 (id, k, v) %s" % src, None), ("INSERT INTO t9 (id, k, v) VALUES (50, 1, 2), (51, 3, 4)", None),
                    ("INSERT IGNORE INTO t9 %s" % src, ["INSERT INTO t9 %s" % src]), ("REPLACE INTO t9 %s" % src, ["INSERT INTO t9 %s" % src]),
                    ("INSERT INTO t9 PARTITION (k = 1) %s" % src, ["X"]), ("INSERT INTO t9 (id) VALUES (1) ON CONFLICT DO NOTHING", ["INSERT INTO t9 (id) VALUES (1)"]),
                    ("INSERT INTO t9 (id, k, v) VALUES (1, 2, 3) ON DUPLICATE KEY UPDATE v = 5", ["X"]), ("INSERT INTO t9 (id, k, v) VALUES (1, 2, 3) RETURNING id", ["INSERT INTO t9 (id, k, v) VALUES (1, 2, 3)"]),
                    ("DELETE FROM t9 WHERE id > 3", None), ("DELETE FROM t9 WHERE id IN (1, 2, 3) AND k > 0", None), ("DELETE FROM t9 WHERE id > 3 LIMIT 1", ["DELETE FROM t9 WHERE id IN (SELECT id FROM t9 WHERE id > 3 LIMIT 1)"]),
                    ("DELETE FROM t9 WHERE id > 3 ORDER BY id DESC LIMIT 1", ["DELETE FROM t9 WHERE id IN (SELECT id FROM t9 WHERE id > 3 ORDER BY id DESC LIMIT 1)"]),
                    ("DELETE FROM t9 USING t2 WHERE id > 3", ["X"]), ("DELETE FROM t9 USING t2 WHERE t9.id = t2.id", ["DELETE FROM t9 WHERE id IN (SELECT id FROM t2)"]),
                    ("DELETE t9 FROM t9 WHERE id > 3", ["DELETE FROM t9 WHERE id > 3"]), ("DELETE FROM t9 WHERE id > 3 RETURNING id", ["DELETE FROM t9 WHERE id > 3"]),
                    ("UPDATE t9 SET k = 7 WHERE id > 3", None), ("TRUNCATE TABLE t9", ["DELETE FROM t9"]), ("DELETE FROM t9 WHERE id IN (SELECT id FROM t2)", None), ("DELETE FROM t9 WHERE id > 3 OR k = 1", None),
                    ("DELETE FROM t9 WHERE NOT id > 3", None), ("DELETE FROM t9 WHERE id + k > 5", None), ("DELETE FROM t9 WHERE k BETWEEN 1 AND 2", None), ("DROP TABLE t9", ["X"]),
                    ("ALTER TABLE t9 ADD COLUMN x INT", ["X"]), ("MERGE INTO t9 USING t2 ON t9.id = t2.id WHEN MATCHED THEN DELETE", ["X"])])
    ref = c[1] or [c[0]]
    return {"sql": c[0], "dml": ref if ref != ["X"] else None, "must": c[1] is None and c[0].startswith(("INSERT", "DELETE FROM t9 WHERE id >")) and " OR " not in c[0]}


FORMS = {"using": f_using, "using_more": f_using_more, "natural": f_natural, "jointype": f_jointype, "distinct_window": f_distinct_window, "distinct_window_join": f_distinct_window_join, "frame": f_frame,
         "window_agg": f_window_agg, "window_place": f_window_place, "nulls": f_nulls, "qualify": f_qualify, "distinct_on": f_distinct_on, "rollup": f_rollup, "position": f_position, "setop": f_setop,
         "filter": f_filter, "agg_args": f_agg_args, "agg_place": f_agg_place, "rowcmp": f_rowcmp, "correlated": f_correlated, "correlated_union": f_correlated_union, "columns": f_columns, "star": f_star,
         "limit": f_limit, "sortby": f_sortby, "expr": f_expr, "having": f_having, "on": f_on, "window_distinct": f_window_distinct, "order_expr": f_order_expr, "subplace": f_subplace, "dml": f_dml}
WEIGHT = {"using": 3, "distinct_window": 3, "frame": 4, "window_agg": 2, "nulls": 2, "dml": 3, "expr": 3, "correlated": 2, "limit": 2, "having": 2, "on": 3, "order_expr": 2, "subplace": 2}
NAMES = [n for n in FORMS for _ in range(WEIGHT.get(n, 1))]
META["required"].update({"form:" + n: 120 for n in FORMS})


def place(rng, f):
    """Nest a form whose result columns are known."""
    cols = f["cols"]
    p = rng.choice(["top", "top", "top", "derived", "cte", "union", "in"])
    if not cols or f["never"] or p == "top" or "WITH " in f["sql"] or (f["ordered"] and p != "derived"):
        return "top", f
    sel = ", ".join("d." + c for c in cols)
    g = dict(f)
    for key in ("sql", "ref"):
        s = f[key]
        if p == "derived":
            g[key] = "SELECT %s FROM (%s) d" % (sel, s)
        elif p == "cte":
            g[key] = "WITH d AS (%s) SELECT %s FROM d" % (s, ", ".join(cols))
        elif p == "union":
            g[key] = "%s UNION ALL SELECT %s FROM t2" % (s, ", ".join(["id", "k", "v"][:len(cols)])) if len(cols) <= 3 else s
        elif p == "in":
            g[key] = "SELECT id, k FROM t3 WHERE id IN (SELECT %s FROM (%s) d)" % ("d." + cols[0], s)
    if p == "union" and ("UNION" in f["sql"] or "EXCEPT" in f["sql"] or "INTERSECT" in f["sql"] or "MINUS" in f["sql"] or len(cols) > 3):
        return "top", f
    if p == "in" and ("UNION" in f["sql"] or cols[0] not in ("i", "g") or f["sql"].count(" AS %s" % cols[0]) != 1):
        return "top", f
    g["ordered"] = f["ordered"] and p == "derived" and False
    g["must"] = f["must"] and p in ("derived", "cte")
    if f["ordered"] and "LIMIT" not in f["sql"]:
        g["ordered"] = False
    return p, g


def make(rng, i, tier):
    ts = tables(rng)
    stmts = []
    while len(stmts) < 4:
        n = rng.choice(NAMES)
        f = FORMS[n](rng)
        if f is None:
            continue
        if "dml" in f:
            stmts.append({"form": n, "place": "dml", **f})
            continue
        p, f = place(rng, f)
        stmts.append({"form": n, "place": p, **f})
    return {"tables": ts, "stmts": stmts}


def rows_tuple(rows):
    return [tuple(eng.norm(v) for v in r) for r in rows]


def db_of(ts, extra=None):
    c = sqlite3.connect(":memory:")
    for t, rows in list(ts.items()) + list((extra or {}).items()):
        cols = list(rows[0])
        c.execute("CREATE TABLE %s (%s)" % (t, ", ".join(cols)))
        for r in rows:
            c.execute("INSERT INTO %s VALUES (%s)" % (t, ", ".join("?" * len(cols))), list(r.values()))
    return c


def run_dml(case, st, obs):
    t9 = [{"id": r["id"], "k": r["k"], "v": r["v"]} for r in case["tables"]["t2"]][:5] + [{"id": 40, "k": 1, "v": 3}, {"id": 2, "k": 0, "v": 9}]
    e = eng.engine(dict(case["tables"], t9=t9))
    r = eng.attempt(e.execute, st["sql"])
    after = [dict(x) for x in (e.get_memory_datas("t9") or [])]
    obs.hit("place:dml")
    if isinstance(r, eng.Raised):
        if st["must"]:
            return obs.fail("refused", "a supported statement was refused", sql=st["sql"], got=repr(r), tables=case["tables"])
        obs.hit("refused")
        obs.hit("untouched")
        if after != t9:
            obs.fail("partial", "a refused statement changed its table", sql=st["sql"], before=t9, after=after, error=repr(r), tables=case["tables"])
        return obs.nontrivial("dml", st["sql"].split(" t9")[0], st["sql"][-30:], "refused")
    if st["dml"] is None:
        return obs.fail("ignored", "a statement outside the dialect was accepted", sql=st["sql"], before=t9, after=after, tables=case["tables"])
    c = db_of(case["tables"], {"t9": t9})
    for s in st["dml"]:
        c.execute(s)
    want = [dict(zip(("id", "k", "v"), x)) for x in c.execute("SELECT id, k, v FROM t9")]
    got = [{k: x.get(k) for k in ("id", "k", "v")} for x in after]
    obs.hit("answered")
    obs.hit("rows", len(after))
    if st["must"]:
        obs.hit("must")
    if not eng.same_rows(got, want):
        obs.fail("dml", "the table is not what the statement says", sql=st["sql"], before=t9, got=got, want=want, tables=case["tables"])
    obs.nontrivial("dml", st["sql"], len(want))


def run(case, obs):
    c = None
    for st in case["stmts"]:
        obs.hit("form:" + st["form"])
        if "dml" in st:
            run_dml(case, st, obs)
            continue
        obs.hit("place:" + st["place"])
        e = eng.engine(dict(case["tables"], vo=[{"mark": 1}]))
        before = {k: [dict(x) for x in v] for k, v in eng.memory_tables(e).items()}
        r = eng.attempt(e.execute, "INSERT INTO `vo` " + st["sql"])
        out = e.get_memory_datas("vo")
        if isinstance(r, eng.Raised):
            if st["must"]:
                obs.fail("refused", "a supported form was refused", form=st["form"], sql=st["sql"], got=repr(r), tables=case["tables"])
                continue
            obs.hit("refused")
            obs.hit("untouched")
            if [dict(x) for x in out] != [{"mark": 1}] or {k: v for k, v in eng.memory_tables(e).items() if not k.endswith("vo")} != {k: v for k, v in before.items() if not k.endswith("vo")}:
                obs.fail("partial", "a refused statement wrote rows", form=st["form"], sql=st["sql"], out=out, error=repr(r), tables=case["tables"])
            obs.nontrivial(st["form"], st["place"], "refused", st["sql"][:60])
            continue
        got = rows_tuple([list(x.values()) for x in out[1:]])
        if st["never"]:
            obs.fail("ignored", "a statement that has no meaning was accepted", form=st["form"], sql=st["sql"], got=out[1:], tables=case["tables"])
            continue
        c = c or db_of(case["tables"])
        try:
            want = rows_tuple(c.execute(st["ref"]).fetchall())
        except sqlite3.Error as x:
            obs.fail("ignored", "a statement the reference refuses was accepted", form=st["form"], sql=st["sql"], reference=str(x), got=out[1:], tables=case["tables"])
            continue
        obs.hit("answered")
        obs.hit("answered:" + st["form"])
        obs.hit("rows", len(got))
        if st["must"]:
            obs.hit("must")
        if (got != want) if st["ordered"] else (sorted(got, key=repr) != sorted(want, key=repr)):
            obs.fail("rows", "the rows are not those of the statement as written", form=st["form"], place=st["place"], sql=st["sql"], got=out[1:], want=want, reference=st["ref"], tables=case["tables"])
        if got:
            obs.nontrivial(st["form"], st["place"], st["sql"][:80], len(got))
