"""C24: typed columns, CAST / CONVERT and the convert functions hold the converted value wherever the column is used.

Tables hold raw values of every kind (numbers, numeric and other text, booleans, bytes, dates, NULL).  Queries use a converted column in
results, conditions, joins, grouping, ordering, aggregates, windows, subqueries and inserts; a reference converts the stored rows in plain
Python and evaluates the same query.  Types of the result values are compared exactly.
"""
import csv, datetime, decimal, json, os, random, sqlite3, uuid
from vlib import eng, harness

META = {
    "id": "C24", "sizes": {"quick": 12000, "thorough": 150000}, "chunk": 30,
    "rule": "a query using at least one converted column ran over at least one row and its rows, value types included, were compared with a reference that converts the stored values in plain Python",
    "required": {"queries": 8000, "direct": 1200, "where": 1500, "join": 500, "group": 500, "order": 500, "aggregate": 400, "distinct": 300, "subquery": 500, "window": 300, "case": 300, "twice": 400, "arith": 300, "having": 200,
                 "lists": 150, "insert": 300, "format": 300, "function": 300, "mixed": 800, "null": 1500, "unconvertible": 1500, "file": 800, "sqlite": 200, "rows": 3000,
                 "type_int": 800, "type_float": 500, "type_str": 800, "type_bool": 300, "type_decimal": 300, "type_date": 500, "type_datetime": 400, "type_time": 300, "type_bytes": 100, "type_uuid": 60, "type_array": 60, "type_set": 30, "type_map": 30,
                 "form_annotation": 2000, "form_cast": 1500, "form_convert": 400, "form_function": 1500},
    "technique": "runtime monitoring: generated queries with converted columns at every position over raw values of every kind; results, with their types, compared with a reference conversion in plain Python",
    "note": "Text such as '2.5' or '1e3' converted to an integer, infinities converted to integers and dates, and numbers converted to a UUID are not generated (left to the external engine, which is not fixed by the documentation). ORDER BY a converted column needs it in the select list.",
}

D, dt, date, time_ = decimal.Decimal, datetime.datetime, datetime.date, datetime.time
TZ = datetime.timezone.utc
NAMES = {"int": ["int", "tinyint", "smallint", "mediumint", "bigint"], "float": ["float", "double"], "str": ["str", "text", "char", "varchar", "nchar", "tinytext", "mediumtext", "string"], "bytes": ["bytes", "binary", "varbinary", "blob"],
         "bool": ["bool", "boolean"], "decimal": ["decimal"], "date": ["date"], "datetime": ["datetime", "timestamp"], "time": ["time"], "uuid": ["uuid"], "array": ["array"], "set": ["set"], "map": ["map"]}
CASTS = {"int": ["int", "tinyint", "smallint", "bigint", "integer"], "float": ["float", "double", "real"], "str": ["char", "varchar", "text", "char(30)", "varchar(30)", "nvarchar(30)", "nchar(30)"], "bytes": ["binary", "varbinary", "blob"], "bool": ["bool", "boolean"],
         "decimal": ["decimal", "numeric", "decimal(10, 2)"], "date": ["date"], "datetime": ["datetime", "timestamp"], "time": ["time"], "uuid": ["uuid"]}
CONV = {"int": ["int", "signed", "bigint", "unsigned"], "float": ["double", "float"], "str": ["char", "varchar(20)", "char(20)"], "date": ["date"], "datetime": ["datetime"], "time": ["time"], "decimal": ["decimal", "decimal(10, 2)"], "bytes": ["binary"]}
FUNCS = {"int": ["convert_int", "convert_bigint", "CONVERT_INT"], "float": ["convert_float", "convert_double"], "str": ["convert_string", "convert_str", "convert_varchar"], "bytes": ["convert_bytes", "convert_blob"], "bool": ["convert_bool", "convert_boolean"],
         "decimal": ["convert_decimal"], "date": ["convert_date"], "datetime": ["convert_datetime", "convert_timestamp"], "time": ["convert_time"], "uuid": ["convert_uuid"], "array": ["convert_array"], "set": ["convert_set"], "map": ["convert_map"]}
WEIGHTS = ["int"] * 6 + ["float"] * 4 + ["str"] * 5 + ["bool"] * 3 + ["decimal"] * 3 + ["date"] * 4 + ["datetime"] * 4 + ["time"] * 3 + ["bytes", "uuid", "array", "set", "map"]
ZERO = {"int": 0, "float": 0.0, "str": "", "bytes": b"", "bool": False, "decimal": D(0), "date": None, "datetime": None, "time": None, "uuid": uuid.UUID(int=0), "array": [], "set": set(), "map": {}}


def is_num(v):
    return isinstance(v, (int, float, D))


def text(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, dt):
        return v.strftime("%Y-%m-%d %H:%M:%S")
    if isinstance(v, date):
        return v.strftime("%Y-%m-%d")
    if isinstance(v, time_):
        return v.strftime("%H:%M:%S")
    if isinstance(v, float):
        return "%f" % v
    if isinstance(v, bytes):
        return v.decode("utf-8")
    return str(v)


def stamp(v):
    """seconds since 1970 (the sessions run in UTC)"""
    return dt(v.year, v.month, v.day, getattr(v, "hour", 0), getattr(v, "minute", 0), getattr(v, "second", 0), tzinfo=TZ).timestamp()


def parse_stamp(s):
    for f in ("%Y-%m-%d %H:%M:%S", "%Y-%m-%d", "%Y-%m-%dT%H:%M:%S"):
        try:
            return dt.strptime(s, f)
        except ValueError:
            pass
    return None


def conv(t, v):
    """The value v converted to type t."""
    if v is None:
        return ZERO[t]
    if t == "int":
        if isinstance(v, (bool, int, float, D)):
            return int(v)
        if isinstance(v, date):
            return int(stamp(v))
        try:
            return int(v)
        except (ValueError, TypeError):
            return 0
    if t == "float":
        if isinstance(v, (bool, int, float, D)):
            return float(v)
        if isinstance(v, date):
            return stamp(v)
        try:
            return float(v)
        except (ValueError, TypeError):
            return 0.0
    if t == "decimal":
        if isinstance(v, (bool, int, float, D)):
            return D(v)
        if isinstance(v, date):
            return D(stamp(v))
        try:
            return D(v)
        except (decimal.InvalidOperation, TypeError, ValueError):
            return D(0)
    if t == "str":
        return text(v)
    if t == "bytes":
        return v if isinstance(v, bytes) else text(v).encode("utf-8")
    if t == "bool":
        return bool(v)
    if t in ("date", "datetime", "time"):
        if isinstance(v, dt):
            x = v.replace(tzinfo=None)
        elif isinstance(v, date):
            if t == "date":
                return v
            x = dt(v.year, v.month, v.day)
        elif isinstance(v, time_):
            return v if t == "time" else None
        elif isinstance(v, (bool, int, float)):
            x = dt(1970, 1, 1) + datetime.timedelta(seconds=int(v))
        elif isinstance(v, str):
            x = parse_stamp(v)
            if x is None and t == "time":
                try:
                    return dt.strptime(v, "%H:%M:%S").time()
                except ValueError:
                    pass
        else:
            x = None
        if x is None:
            return None
        return x if t == "datetime" else x.date() if t == "date" else x.time()
    if t == "uuid":
        if isinstance(v, uuid.UUID):
            return v
        if isinstance(v, bool):
            return uuid.UUID(int=2 ** 128 - 1 if v else 0)
        try:
            return uuid.UUID(v)
        except (ValueError, AttributeError, TypeError):
            return uuid.UUID(int=0)
    if t == "array":
        return v if isinstance(v, list) else [v]
    if t == "set":
        return v if isinstance(v, set) else {v}
    if t == "map":
        if not v:
            return {}
        if isinstance(v, dict):
            return v
        if isinstance(v, list):
            return {x: None for x in v}
        return {v: None}
    raise KeyError(t)


INTS, FLTS = [0, 1, 2, 3, -1, -7, 10, 9, 120, 86400, 1709287629], [0.5, 2.5, -1.25, 3.0, 100.0, 10.75, -0.5]
NTEXT, JUNK = ["0", "1", "2", "3", "-1", "10", "9", "007", " 12 ", "120", "+4"], ["abc", "", "x1", "true", "nul", "12a", "--", "é", "None"]
FTEXT = ["2.5", "-1.25", "3.0", "0.5", "1e2", "10.75"]
DTEXT = ["2024-03-05", "2024-02-29", "2023-12-31", "2024-03-05 06:07:08", "2024-03-05 00:00:00", "1999-01-01 23:59:59", "2024-03-05T10:00:01"]
BADD = ["2024-13-01", "2023-02-29", "2024-03-32", "2024-03-05 25:00:00"]
DATES = [date(2024, 3, 5), date(2024, 2, 29), date(1970, 1, 2), date(2023, 12, 31)]
DTS = [dt(2024, 3, 5, 6, 7, 8), dt(2024, 3, 5), dt(1999, 1, 1, 23, 59, 59), dt(2024, 2, 29, 12, 0, 0)]
TIMES = [time_(6, 7, 8), time_(0, 0, 0), time_(23, 59, 59), time_(10, 0, 1)]
TTEXT = ["06:07:08", "00:00:00", "23:59:59", "10:00:01"]
UTEXT = ["6ba7b810-9dad-11d1-80b4-00c04fd430c8", "6BA7B8109DAD11D180B400C04FD430C8", "00000000-0000-0000-0000-000000000007"]
DECS = [D("4.50"), D("0"), D("-3"), D("10.75"), D("9")]
POOL = {"int": [INTS, INTS, FLTS, NTEXT, NTEXT, JUNK, [True, False], DECS, [b"12", b"x"], DTS, DATES, TIMES, DTEXT], "float": [INTS, FLTS, FLTS, NTEXT, FTEXT, FTEXT, JUNK, [True, False], DECS, DTS, DTEXT],
        "decimal": [INTS, FLTS, NTEXT, FTEXT, JUNK, [True, False], DECS, DTS], "str": [INTS, FLTS, NTEXT, JUNK, [True, False], DECS, [b"12", b"ab"], DTS, DATES, TIMES, DTEXT, UTEXT], "bytes": [INTS, FLTS, NTEXT, JUNK, [True, False], [b"12", b"ab"], DTS, TIMES],
        "bool": [INTS, FLTS, NTEXT, JUNK, [True, False], DECS, DTEXT, DTS], "date": [DTEXT, DTEXT, DTEXT, DATES, DTS, JUNK, BADD, [0, 86400, 1709287629], [b"x"]], "datetime": [DTEXT, DTEXT, DTEXT, DATES, DTS, JUNK, BADD, [0, 86400, 1709287629]],
        "time": [DTEXT, TTEXT, TTEXT, TIMES, DTS, JUNK, BADD, [0, 86399, 1709287629]], "uuid": [UTEXT, UTEXT, JUNK, [True, False], [b"x"]], "array": [INTS, JUNK, [[1, 2], ["a"], []], DTEXT], "set": [INTS, JUNK], "map": [INTS, JUNK, [{"a": 1}, {"b": 2, "c": None}]]}
CLEAN = {"int": INTS, "float": FLTS, "decimal": DECS, "str": NTEXT + JUNK, "bool": [True, False], "date": DATES, "datetime": DTS, "time": TIMES, "bytes": [b"12", b"ab"], "uuid": [uuid.UUID(u) for u in UTEXT], "array": [[1]], "set": [{1}], "map": [{"a": 1}]}
ORDERED = ["int", "float", "str", "decimal", "date", "datetime", "time", "bool", "int", "str", "date", "float"]
SCALAR = [t for t in WEIGHTS if t not in ("array", "set", "map")]


def jsonable(v):
    return v is None or isinstance(v, (bool, int, float, str)) or isinstance(v, (list, dict))


def raws(rng, t, n, store, few=False):
    """n raw values to be converted to t (few distinct ones, so that groups and matches happen)."""
    pool = []
    groups = rng.sample(POOL[t], min(len(POOL[t]), rng.choice([1, 2, 3, 4])))
    for g in groups:
        pool += rng.sample(g, min(len(g), rng.choice([2, 3, 4])))
    if rng.random() < 0.7:
        pool += [None]
    if rng.random() < 0.4:
        pool += rng.sample(CLEAN[t], min(2, len(CLEAN[t])))
    pool = [v for v in pool if ok_for(store, t, v)] or [v for g in POOL[t] for v in g if ok_for(store, t, v)]
    if few:
        pool = rng.sample(pool, min(len(pool), 4))
    return [rng.choice(pool) for _ in range(n)]


def ok_for(store, t, v):
    if isinstance(v, str) and (t in ("int",) and v in FTEXT):
        return False
    if store == "json":
        return jsonable(v)
    if store == "csv":
        return isinstance(v, str)
    if store == "sqlite":
        return v is None or isinstance(v, (int, float, str)) and not isinstance(v, bool)
    return True


class Table:
    def __init__(self, rng, store, types, n, name="t", few=False, ref=None):
        self.name, self.store, self.types = name, store, types
        self.rows = [{"id": i + 1} for i in range(n)]
        for c, t in types.items():
            for r, v in zip(self.rows, raws(rng, t, n, store, few)):
                r[c] = v
        self.ref = name

    def place(self, e, rng):
        if self.store == "memory":
            if self.rows:
                e.push_memory_datas(self.name, [dict(r) for r in self.rows])
            return "`%s`" % self.name
        d = os.path.join(harness.scratch(), "c24")
        os.makedirs(d, exist_ok=True)
        if self.store == "json":
            with open(os.path.join(d, self.name + ".json"), "w") as fp:
                json.dump(self.rows, fp)
            return "`file://%s/%s.json`" % (d, self.name)
        if self.store == "csv":
            with open(os.path.join(d, self.name + ".csv"), "w", newline="") as fp:
                w = csv.writer(fp)
                w.writerow(list(self.rows[0]))
                for r in self.rows:
                    w.writerow(list(r.values()))
            return "`file://%s/%s.csv`" % (d, self.name)
        return "sq." + self.name


def build(rng, tables):
    conf = None
    if any(t.store == "sqlite" for t in tables):
        d = os.path.join(harness.scratch(), "c24")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "db.sqlite")
        if os.path.exists(p):
            os.remove(p)
        db = sqlite3.connect(p)
        for t in tables:
            if t.store == "sqlite":
                cols = list(t.rows[0])
                db.execute("create table %s (%s)" % (t.name, ", ".join(c if c != "id" else "id integer primary key" for c in cols)))
                db.executemany("insert into %s values (%s)" % (t.name, ", ".join("?" * len(cols))), [tuple(r[c] for c in cols) for r in t.rows])
        db.commit()
        db.close()
        conf = {"databases": [{"name": "sq", "driver": "sqlite", "database": p}]}
    e = eng.engine(None, conf)
    if rng.random() < 0.2:
        e.set_variable("@batch", rng.choice([1, 2, 3]))
    for t in tables:
        t.ref = t.place(e, rng)
    return e


def form(rng, obs, t, col, alias=None, kinds=("annotation", "cast", "convert", "function")):
    """The text of column col converted to t."""
    p = alias + "." if alias else ""
    ks = [k for k in kinds if k == "annotation" or k == "cast" and t in CASTS or k == "convert" and t in CONV or k == "function"]
    k = rng.choice(ks)
    obs.hit("form_" + k)
    obs.hit("type_" + t)
    if k == "annotation":
        n = rng.choice([x for x in NAMES[t]])
        return "%s`%s[%s]`" % (p, col, n if rng.random() < 0.8 else n.upper())
    if k == "cast":
        n = rng.choice(CASTS[t])
        return rng.choice(["cast(%s%s as %s)", "CAST(%s`%s` AS %s)"]) % (p, col, n if rng.random() < 0.7 else n.upper())
    if k == "convert":
        n = rng.choice(CONV[t])
        return rng.choice(["convert(%s%s, %s)", "CONVERT(%s`%s`, %s)"]) % (p, col, n if rng.random() < 0.7 else n.upper())
    return "%s(%s%s)" % (rng.choice(FUNCS[t]), p, rng.choice([col, "`%s`" % col]))


def exact(v):
    """Canonical form with the exact type."""
    if v is None:
        return None
    if isinstance(v, dt):
        return ("datetime", v.replace(tzinfo=None).isoformat())
    if isinstance(v, float):
        return ("float", "%.9g" % v)
    if isinstance(v, D):
        return ("decimal", str(v.normalize() + 0) if v else "0")
    if isinstance(v, (list, tuple)):
        return ("list",) + tuple(exact(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return ("set",) + tuple(sorted((exact(x) for x in v), key=repr))
    if isinstance(v, dict):
        return ("dict",) + tuple(sorted(((exact(a), exact(b)) for a, b in v.items()), key=repr))
    return (type(v).__name__, v)


def erow(r):
    return [(k, exact(v)) for k, v in r.items()]


def compare(obs, kind, e, sql, want, tables, ordered=True, loose=False, out=None, got=None):
    obs.hit("queries")
    obs.hit(kind)
    if got is None:
        got = eng.attempt(eng.query, e, sql)
    obs.hit("rows", len(want))
    if any(t.store == "csv" for t in tables) and not isinstance(got, eng.Raised):
        # the ids of a CSV file are text
        nums = {k for r in want for k, v in r.items() if type(v) is int}
        got = [{k: int(v) if k in ("id", "m", "n") and k in nums and isinstance(v, str) and v.isdigit() else v for k, v in r.items()} for r in got]
    if isinstance(got, eng.Raised):
        same = False
    elif loose:
        same = eng.same_rows(got, want, ordered)
    else:
        a, b = [erow(r) for r in got], [erow(r) for r in want]
        same = a == b if ordered else sorted(a, key=repr) == sorted(b, key=repr)
    if not same:
        obs.fail(kind, "a converted column does not hold the converted value", sql=sql, got=got, want=want, tables={t.name: (t.store, t.rows) for t in tables})
    elif want:
        obs.nontrivial(kind, sql, repr(want)[:300])
    return same


def note(obs, t, values):
    for v in values:
        if v is None:
            obs.hit("null")
        elif conv(t, v) == ZERO[t]:
            obs.hit("unconvertible")


def pick_store(rng, sq=False):
    r = rng.random()
    return "memory" if r < 0.6 else "json" if r < 0.78 else "csv" if r < 0.92 or not sq else "sqlite"


def store_hit(obs, tables):
    for t in tables:
        obs.hit("file" if t.store in ("json", "csv") else t.store)


def types_of(rng, cols, pool=SCALAR):
    return {c: rng.choice(pool) for c in cols}


# ------------------------------------------------------------------ kinds of cases
def raw_out(v):
    return v


def direct(rng, obs):
    """Several conversions of the same and of different columns, next to the raw columns."""
    store = pick_store(rng, True)
    T = Table(rng, store, types_of(rng, ["a", "b", "c"], WEIGHTS if store in ("memory", "json") else SCALAR), rng.randrange(1, 9))
    e = build(rng, [T])
    store_hit(obs, [T])
    sel, fs = ["id"], [("id", lambda r: r["id"])]
    for i in range(rng.randrange(1, 6)):
        c = rng.choice("abc")
        if rng.random() < 0.25 and store != "sqlite":
            sel.append(rng.choice(["%s as r%d", "`%s` r%d"]) % (c, i))
            fs.append(("r%d" % i, lambda r, c=c: r[c]))
            obs.hit("mixed")
            continue
        # a column is converted to its own type, sometimes also to text or boolean
        t = T.types[c] if rng.random() < 0.75 or T.types[c] in ("uuid", "array", "set", "map") else rng.choice(["str", "bool"])
        if t in ("str", "bytes") and any(isinstance(r[c], (list, dict, uuid.UUID)) for r in T.rows):
            continue
        note(obs, t, [r[c] for r in T.rows])
        sel.append("%s as x%d" % (form(rng, obs, t, c), i))
        fs.append(("x%d" % i, lambda r, c=c, t=t: conv(t, r[c])))
    return compare(obs, "direct", e, "select %s from %s" % (", ".join(sel), T.ref), [{k: f(r) for k, f in fs} for r in T.rows], [T])


def lit(rng, t, v):
    """SQL text of a value of type t (None when there is none)."""
    if t in ("int",):
        return "%d" % v
    if t == "float":
        return "%r" % v
    if t == "decimal":
        return "%s" % (v if v == v.to_integral_value() else v.normalize())
    if t == "str":
        return "'%s'" % v.replace("\\", "\\\\").replace("'", "''")
    if t == "bool":
        return "true" if v else "false"
    if t == "date":
        s = v.strftime("%Y-%m-%d")
        return rng.choice(["'%s'", "cast('%s' as date)"]) % s
    if t == "datetime":
        s = v.strftime("%Y-%m-%d %H:%M:%S")
        if v.time() == time_(0) and rng.random() < 0.5:
            s = v.strftime("%Y-%m-%d")
        return rng.choice(["'%s'", "cast('%s' as datetime)"]) % s
    if t == "time":
        return rng.choice(["'%s'", "cast('%s' as time)"]) % v.strftime("%H:%M:%S")
    return None


OPS = {"=": lambda a, b: a == b, "!=": lambda a, b: a != b, "<>": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


def n3(f, *a):
    return None if any(x is None for x in a) else f(*a)


def pred(rng, obs, T, depth=0, alias=None):
    """(text, three-valued function of a row)"""
    r = rng.random()
    if depth < 2 and r < 0.25:
        (a, f), (b, g) = pred(rng, obs, T, depth + 1, alias), pred(rng, obs, T, depth + 1, alias)
        if rng.random() < 0.5:
            return "(%s and %s)" % (a, b), lambda x: 0 if f(x) in (0, False) or g(x) in (0, False) else None if f(x) is None or g(x) is None else True
        return "(%s or %s)" % (a, b), lambda x: True if f(x) or g(x) else None if f(x) is None or g(x) is None else False
    if r < 0.3 and T.store != "csv":
        n = rng.randrange(1, 6)
        return "%sid %s %d" % ((alias + "." if alias else ""), "<=", n), lambda x: x["id"] <= n
    c = rng.choice([k for k in T.types if T.types[k] in ("int", "float", "str", "bool", "decimal", "date", "datetime", "time")] or [None])
    if c is None:
        return "%sid > 0" % ((alias + "." if alias else "")), lambda x: True
    t = T.types[c]
    note(obs, t, [x[c] for x in T.rows])
    kinds = ("annotation", "cast", "convert", "function") if T.store != "sqlite" else ("cast", "convert", "function")
    F = form(rng, obs, t, c, alias, kinds)
    g = lambda x: conv(t, x[c])
    vals = [conv(t, x[c]) for x in T.rows]
    vals = [v for v in vals if v is not None] + [v for v in CLEAN[t]][:3]
    pickv = lambda: rng.choice(vals)
    if t == "str":
        pickv = lambda: rng.choice([v for v in vals if "'" not in v and "\\" not in v])
    k = rng.random()
    if k < 0.5:
        op, v = rng.choice(list(OPS) if t not in ("bool",) else ["=", "!="]), pickv()
        L = lit(rng, t, v)
        if rng.random() < 0.15 and op in ("=", "!=") and t != "bool":
            return "%s %s %s" % (L, op, F), lambda x: n3(lambda y: OPS[op](v, y), g(x))
        return "%s %s %s" % (F, op, L), lambda x: n3(lambda y: OPS[op](y, v), g(x))
    if k < 0.65 and t != "bool":
        vs = [pickv() for _ in range(rng.randrange(1, 4))]
        neg = rng.random() < 0.3
        s = "%s %sin (%s)" % (F, "not " if neg else "", ", ".join(lit(rng, t, v) for v in vs))
        return s, lambda x: n3(lambda y: (y in vs) != neg, g(x))
    if k < 0.77 and t != "bool":
        a, b = sorted([pickv(), pickv()])
        return "%s between %s and %s" % (F, lit(rng, t, a), lit(rng, t, b)), lambda x: n3(lambda y: a <= y <= b, g(x))
    if k < 0.84:
        neg = rng.random() < 0.5
        return "%s is %snull" % (F, "not " if neg else ""), lambda x: (g(x) is None) != neg
    if k < 0.9 and t == "str":
        w = rng.choice(["1%", "2024%", "%0%", "a%", "%"])
        core = w.strip("%")
        return "%s like '%s'" % (F, w), lambda x: (g(x).lower().startswith(core) if not w.startswith("%") else core in g(x).lower())
    if k < 0.95:
        (a, f) = pred(rng, obs, T, 3, alias)
        return "not (%s)" % a, lambda x: n3(lambda y: not y, f(x))
    d = [k2 for k2 in T.types if T.types[k2] == t]
    c2 = rng.choice(d)
    op = rng.choice(list(OPS) if t != "bool" else ["=", "!="])
    G = form(rng, obs, t, c2, alias, kinds)
    return "%s %s %s" % (F, op, G), lambda x: n3(lambda y, z: OPS[op](y, z), g(x), conv(t, x[c2]))


def where(rng, obs):
    store = pick_store(rng, True)
    ts = types_of(rng, ["a", "b", "c"], ORDERED)
    if rng.random() < 0.3:
        ts["b"] = ts["a"]
    T = Table(rng, store, ts, rng.randrange(2, 10), few=True)
    e = build(rng, [T])
    store_hit(obs, [T])
    p, f = pred(rng, obs, T)
    sel, fs = ["id"], [("id", lambda r: r["id"])]
    if rng.random() < 0.5:
        c = rng.choice("abc")
        if rng.random() < 0.5:
            sel.append("%s as x" % form(rng, obs, ts[c], c))
            fs.append(("x", lambda r: conv(ts[c], r[c])))
        else:
            obs.hit("mixed")
            sel.append("%s as x" % c)
            fs.append(("x", lambda r: r[c]))
    return compare(obs, "where", e, "select %s from %s where %s" % (", ".join(sel), T.ref, p), [{k: g(r) for k, g in fs} for r in T.rows if f(r)], [T])


def join(rng, obs):
    t = rng.choice(["int", "int", "str", "date", "datetime", "decimal", "float", "time"])
    T = Table(rng, pick_store(rng), {"k": t, "a": rng.choice(ORDERED)}, rng.randrange(2, 8), few=True)
    U = Table(rng, "memory", {}, 0, "u")
    keys = [conv(t, r["k"]) for r in T.rows]
    cand = [k for k in keys if k is not None] + rng.sample(CLEAN[t], 2)
    w = rng.choice(ORDERED)
    typed = rng.random() < 0.3
    for i, (v, y) in enumerate(zip([rng.choice(cand) for _ in range(rng.randrange(1, 6))], raws(rng, w, 6, "memory"))):
        U.rows.append({"id": i + 1, "j": v.replace(tzinfo=TZ) if isinstance(v, dt) else v, "w": y})
    U.types = {"w": w}
    e = build(rng, [T, U])
    store_hit(obs, [T])
    note(obs, t, [r["k"] for r in T.rows])
    inner = rng.random() < 0.5
    on = "%s = %s" % (form(rng, obs, t, "k", "x"), "y.j") if rng.random() < 0.6 else "%s = %s" % ("y.j", form(rng, obs, t, "k", "x"))
    ta = T.types["a"]
    agg = rng.random() < 0.2
    pairs = []
    for r in T.rows:
        k = conv(t, r["k"])
        m = [u for u in U.rows if k is not None and exact(u["j"]) == exact(k)]
        if m:
            pairs += [(r, u) for u in m]
        elif not inner:
            pairs.append((r, None))
    if agg:
        sql = "select x.id, count(y.id) as c from %s x %s %s y on %s group by x.id" % (T.ref, "inner join" if inner else "left join", U.ref, on)
        want = []
        for r in T.rows:
            m = [u for a, u in pairs if a is r]
            if m:
                want.append({"id": r["id"], "c": len([u for u in m if u])})
        return compare(obs, "join", e, sql, want, [T, U], ordered=False, loose=True)
    sel = "x.id, %s as ka, %s as a, y.id as uid" % (form(rng, obs, t, "k", "x"), form(rng, obs, ta, "a", "x"))
    rowf = lambda r, u: dict([("id", r["id"]), ("ka", conv(t, r["k"])), ("a", conv(ta, r["a"])), ("uid", u["id"] if u else None)] + extra(r, u))
    extra = lambda r, u: []
    if rng.random() < 0.5:
        obs.hit("mixed")
        sel += ", x.k as rk"
        extra = lambda r, u: [("rk", r["k"])]
    if inner and rng.random() < 0.6:
        sel += ", %s as w" % form(rng, obs, w, "w", "y")
        ex0 = extra
        extra = lambda r, u: ex0(r, u) + [("w", conv(w, u["w"]))]
    wh, f = "", lambda r: True
    if rng.random() < 0.3:
        p, f = pred(rng, obs, T, 1, "x")
        wh = " where " + p
    sql = "select %s from %s x %s %s y on %s%s" % (sel, T.ref, rng.choice(["inner join"] if inner else ["left join", "join"]), U.ref, on, wh)
    return compare(obs, "join", e, sql, [rowf(r, u) for r, u in pairs if f(r)], [T, U], ordered=False)


def groups(T, c, t):
    g = {}
    for r in T.rows:
        g.setdefault(exact(conv(t, r[c])), (conv(t, r[c]), []))[1].append(r)
    return list(g.values())


def numeric(rng, T):
    return rng.choice([c for c in T.types if T.types[c] in ("int", "float", "decimal")] or [None])


def group(rng, obs):
    store = pick_store(rng)
    T = Table(rng, store, {"k": rng.choice(SCALAR), "a": rng.choice(["int", "float", "int"])}, rng.randrange(2, 10), few=True)
    e = build(rng, [T])
    store_hit(obs, [T])
    t, ta = T.types["k"], T.types["a"]
    note(obs, t, [r["k"] for r in T.rows])
    F = form(rng, obs, t, "k")
    A = form(rng, obs, ta, "a")
    by = rng.choice([F, F, "x"])
    mode = rng.random()
    if mode < 0.3:
        by, key = F, False
    else:
        key = True
    hv = ""
    hf = lambda v, rs: True
    kind = "group"
    if rng.random() < 0.35 and key:
        kind = "having"
        n = rng.choice([1, 2])
        s = rng.choice(["s", "c"])
        if s == "c":
            hv, hf = " having c > %d" % n, lambda v, rs: len(rs) > n
        else:
            hv, hf = " having s > %d" % n, lambda v, rs: sum(conv(ta, r["a"]) for r in rs) > n
    sql = "select %scount(*) as c, sum(%s) as s, min(id) as m from %s group by %s%s" % (F + " as x, " if key else "", A, T.ref, by, hv)
    want = [dict(([("x", v)] if key else []) + [("c", len(rs)), ("s", sum(conv(ta, r["a"]) for r in rs)), ("m", min(r["id"] for r in rs))]) for v, rs in groups(T, "k", t) if hf(v, rs)]
    got = eng.attempt(eng.query, e, sql)
    if key and not isinstance(got, eng.Raised) and [exact(r.get("x")) for r in got] != [exact(r["x"]) for r in want]:
        return compare(obs, kind, e, sql, want, [T], got=got)
    return compare(obs, kind, e, sql, want, [T], loose=True, ordered=True, got=got)


def order(rng, obs):
    store = pick_store(rng)
    T = Table(rng, store, {"a": rng.choice(ORDERED), "b": rng.choice(ORDERED)}, rng.randrange(2, 10), few=rng.random() < 0.5)
    e = build(rng, [T])
    store_hit(obs, [T])
    rows = list(T.rows)
    sel, keys, want_cols = ["id"], [], [("id", lambda r: r["id"])]
    terms = []
    cols = rng.choice([["a"], ["b"], ["a", "b"], ["a", "id"], ["b", "id"]])
    named = {}
    for i, c in enumerate(cols):
        desc = rng.random() < 0.4
        if c == "id":
            terms.append(("id", lambda r: r["id"], desc))
            continue
        t = T.types[c]
        note(obs, t, [r[c] for r in T.rows])
        F = form(rng, obs, t, c)
        al = rng.choice(["x%d" % i, "x%d" % i, None]) or "x%d" % i
        sel.append("%s as %s" % (F, al))
        want_cols.append((al, lambda r, c=c, t=t: conv(t, r[c])))
        terms.append((rng.choice([F, al]), lambda r, c=c, t=t: conv(t, r[c]), desc))
    for text_, f, desc in reversed(terms):
        rows.sort(key=lambda r: (f(r) is not None, f(r)) if f(r) is not None else (False, 0), reverse=desc)
    lim = ""
    if rng.random() < 0.4:
        n = rng.randrange(1, 6)
        lim, rows = " limit %d" % n, rows[:n]
    if rng.random() < 0.3:
        obs.hit("mixed")
        sel.append("a as ra")
        want_cols.append(("ra", lambda r: r["a"]))
    sql = "select %s from %s order by %s%s" % (", ".join(sel), T.ref, ", ".join(x + (" desc" if d else rng.choice([" asc", ""])) for x, f, d in terms), lim)
    return compare(obs, "order", e, sql, [{k: f(r) for k, f in want_cols} for r in rows], [T])


def aggregate(rng, obs):
    store = pick_store(rng)
    t = rng.choice(ORDERED)
    T = Table(rng, store, {"a": t}, rng.randrange(1, 9), few=True)
    e = build(rng, [T])
    store_hit(obs, [T])
    note(obs, t, [r["a"] for r in T.rows])
    vs = [conv(t, r["a"]) for r in T.rows]
    vs = [v for v in vs if v is not None]
    fs = ["count", "dcount"] + (["min", "max"] if t not in ("bool",) and vs else []) + (["sum", "avg"] if t in ("int", "float") else [])
    sel, want = [], {}
    for i in range(rng.randrange(1, 4)):
        f = rng.choice(fs)
        F = form(rng, obs, t, "a")
        sel.append({"dcount": "count(distinct %s) as y%d" % (F, i)}.get(f, "%s(%s) as y%d" % (f, F, i)))
        want["y%d" % i] = {"count": lambda: len(vs), "dcount": lambda: len(set(map(exact, vs))), "min": lambda: min(vs), "max": lambda: max(vs), "sum": lambda: sum(vs), "avg": lambda: sum(vs) / len(vs) if vs else 0}[f]()
    return compare(obs, "aggregate", e, "select %s from %s" % (", ".join(sel), T.ref), [want], [T], loose=True)


def distinct(rng, obs):
    store = pick_store(rng)
    t = rng.choice(SCALAR)
    T = Table(rng, store, {"a": t, "b": t}, rng.randrange(1, 9), few=True)
    e = build(rng, [T])
    store_hit(obs, [T])
    note(obs, t, [r["a"] for r in T.rows])

    def uniq(vs):
        return list({exact(v): v for v in reversed(vs)}.values())
    a, b = [conv(t, r["a"]) for r in T.rows], [conv(t, r["b"]) for r in T.rows]
    k = rng.random()
    if k < 0.5:
        sql, vs = "select distinct %s as x from %s" % (form(rng, obs, t, "a"), T.ref), uniq(a)
    elif k < 0.75:
        sql, vs = "select %s as x from %s union select %s as x from %s" % (form(rng, obs, t, "a"), T.ref, form(rng, obs, t, "b"), T.ref), uniq(a + b)
    else:
        sql, vs = "select %s as x from %s union all select %s as x from %s" % (form(rng, obs, t, "a"), T.ref, form(rng, obs, t, "b"), T.ref), a + b
    return compare(obs, "distinct", e, sql, [{"x": v} for v in vs], [T], ordered=False)


def subquery(rng, obs):
    store = pick_store(rng)
    t, t2 = rng.choice(ORDERED), rng.choice(ORDERED)
    T = Table(rng, store, {"a": t, "b": t2}, rng.randrange(2, 9), few=True)
    e = build(rng, [T])
    store_hit(obs, [T])
    note(obs, t, [r["a"] for r in T.rows])
    F = form(rng, obs, t, "a")
    inner = "select id, %s as x, b from %s" % (F, T.ref)
    rows = [{"id": r["id"], "x": conv(t, r["a"]), "b": r["b"]} for r in T.rows]
    k = rng.randrange(5)
    wrap = (lambda body: "with q as (%s) select %s" % (inner, body.replace("@", "q"))) if rng.random() < 0.5 else (lambda body: "select " + body.replace("@", "(%s) q" % inner))
    if k == 0:
        return compare(obs, "subquery", e, wrap("id, x, %s as y from @" % form(rng, obs, t2, "b")), [{"id": r["id"], "x": r["x"], "y": conv(t2, r["b"])} for r in rows], [T])
    if k == 1:
        d = rng.random() < 0.5
        rows.sort(key=lambda r: (r["x"] is not None, r["x"]) if r["x"] is not None else (False, 0), reverse=d)
        return compare(obs, "subquery", e, wrap("id, x from @ order by x%s" % (" desc" if d else "")), [{"id": r["id"], "x": r["x"]} for r in rows], [T])
    if k == 2:
        g = {}
        for r in rows:
            g.setdefault(exact(r["x"]), (r["x"], []))[1].append(r)
        return compare(obs, "subquery", e, wrap("x, count(*) as c from @ group by x"), [{"x": v, "c": len(rs)} for v, rs in g.values()], [T])
    if k == 3 and t not in ("bool", "decimal"):
        U = [{"j": v.replace(tzinfo=TZ) if isinstance(v, dt) else v} for v in dict.fromkeys([conv(t, r["a"]) for r in T.rows[:2]] + CLEAN[t][:1]) if v is not None]
        e.push_memory_datas("u", U)
        js = [u["j"].replace(tzinfo=None) if isinstance(u["j"], dt) else u["j"] for u in U]
        return compare(obs, "subquery", e, "select id from %s where %s in (select j from u)" % (T.ref, F), [{"id": r["id"]} for r in rows if r["x"] in js], [T])
    # converted twice at different levels: the outer conversion sees the value of the inner one
    return compare(obs, "subquery", e, wrap("id, %s as y from @" % form(rng, obs, "str", "x")), [{"id": r["id"], "y": conv("str", r["x"])} for r in rows], [T])


def window(rng, obs):
    store = pick_store(rng)
    T = Table(rng, store, {"a": rng.choice(["int", "float", "str", "date", "datetime", "decimal"]), "k": rng.choice(["int", "str", "date", "bool"])}, rng.randrange(2, 9), few=True)
    e = build(rng, [T])
    store_hit(obs, [T])
    t, tk = T.types["a"], T.types["k"]
    F, K = form(rng, obs, t, "a"), form(rng, obs, tk, "k")
    A, KK = (lambda r: conv(t, r["a"])), (lambda r: exact(conv(tk, r["k"])))
    mode = rng.randrange(3)
    key = lambda r: ((A(r) is not None, A(r)) if A(r) is not None else (False, 0), r["id"])
    if mode == 0:
        rk = {id(r): i + 1 for i, r in enumerate(sorted(T.rows, key=key))}
        return compare(obs, "window", e, "select id, row_number() over (order by %s, id) as n from %s" % (F, T.ref), [{"id": r["id"], "n": rk[id(r)]} for r in T.rows], [T], ordered=False, loose=True)
    if mode == 1:
        return compare(obs, "window", e, "select id, sum(id) over (partition by %s) as n from %s" % (K, T.ref), [{"id": r["id"], "n": sum(x["id"] for x in T.rows if KK(x) == KK(r))} for r in T.rows], [T], ordered=False, loose=True)
    prev = {}
    want = []
    for r in T.rows:
        want.append({"id": r["id"], "n": prev.get(KK(r))})
        prev[KK(r)] = A(r)
    return compare(obs, "window", e, "select id, lag(%s) over (partition by %s order by id) as n from %s" % (F, K, T.ref), want, [T], ordered=False)


def case(rng, obs):
    store = pick_store(rng)
    t = rng.choice(ORDERED)
    T = Table(rng, store, {"a": t, "b": rng.choice(ORDERED)}, rng.randrange(1, 8), few=True)
    e = build(rng, [T])
    store_hit(obs, [T])
    p, f = pred(rng, obs, T)
    F = form(rng, obs, t, "a")
    k = rng.randrange(3)
    if k == 0:
        return compare(obs, "case", e, "select id, case when %s then 'y' else 'n' end as x from %s" % (p, T.ref), [{"id": r["id"], "x": "y" if f(r) else "n"} for r in T.rows], [T])
    if k == 1:
        return compare(obs, "case", e, "select id, if(%s, %s, null) as x from %s" % (p, F, T.ref), [{"id": r["id"], "x": conv(t, r["a"]) if f(r) else None} for r in T.rows], [T])
    return compare(obs, "case", e, "select id, coalesce(%s, 'none') as x, ifnull(%s, 'none') as y from %s" % (F, form(rng, obs, t, "a"), T.ref),
                   [{"id": r["id"], "x": "none" if conv(t, r["a"]) is None else conv(t, r["a"]), "y": "none" if conv(t, r["a"]) is None else conv(t, r["a"])} for r in T.rows], [T])


def nest(rng, obs, t, inner):
    ks = [k for k in ("cast", "convert", "function") if k == "function" or k == "cast" and t in CASTS or k == "convert" and t in CONV]
    k = rng.choice(ks)
    obs.hit("form_" + k)
    obs.hit("type_" + t)
    if k == "cast":
        return "cast(%s as %s)" % (inner, rng.choice(CASTS[t]))
    if k == "convert":
        return "convert(%s, %s)" % (inner, rng.choice(CONV[t]))
    return "%s(%s)" % (rng.choice(FUNCS[t]), inner)


def twice(rng, obs):
    """Converting twice to one type equals converting once; a chain of types is applied from the inside out."""
    store = pick_store(rng)
    T = Table(rng, store, types_of(rng, ["a", "b"], WEIGHTS if store in ("memory", "json") else SCALAR), rng.randrange(1, 8))
    e = build(rng, [T])
    store_hit(obs, [T])
    c = rng.choice("ab")
    t = T.types[c]
    note(obs, t, [r[c] for r in T.rows])
    k = rng.randrange(4)
    chain = [t, t]
    if k == 3 and t not in ("array", "set", "map", "uuid", "bytes"):
        chain = [t, "str"] if rng.random() < 0.6 else [t, "str", t] if t in ("int", "date", "datetime", "time", "str") else [t, "bool"]
    if rng.random() < 0.4:
        obs.hit("form_annotation")
        F = "`%s[%s]`" % (c, ";".join(rng.choice(NAMES[x]) for x in chain))
    else:
        F = form(rng, obs, chain[0], c)
        for x in chain[1:]:
            F = nest(rng, obs, x, F)

    def f(r):
        v = r[c]
        for x in chain:
            v = conv(x, v)
        return v
    return compare(obs, "twice", e, "select id, %s as x, %s as y from %s" % (F, form(rng, obs, t, c), T.ref), [{"id": r["id"], "x": f(r), "y": conv(t, r[c])} for r in T.rows], [T])


def arith(rng, obs):
    store = pick_store(rng)
    T = Table(rng, store, {"a": rng.choice(["int", "float"]), "b": rng.choice(["int", "float"]), "s": "str"}, rng.randrange(1, 8))
    e = build(rng, [T])
    store_hit(obs, [T])
    A, B = T.types["a"], T.types["b"]
    n = rng.randrange(1, 9)
    opt = rng.choice(["+n", "*2", "-b", "neg", "cat", "len", "cmp", "abs"])
    F = form(rng, obs, A, "a")
    va = lambda r: conv(A, r["a"])
    s = {"+n": "%s + %d" % (F, n), "*2": "2 * %s" % F, "-b": "%s - %s" % (F, form(rng, obs, B, "b")), "neg": "-%s" % F, "cat": "concat(%s, '-')" % form(rng, obs, "str", "s"), "len": "char_length(%s)" % form(rng, obs, "str", "s"), "cmp": "%s > %d" % (F, n), "abs": "abs(%s)" % F}[opt]
    f = {"+n": lambda r: va(r) + n, "*2": lambda r: 2 * va(r), "-b": lambda r: va(r) - conv(B, r["b"]), "neg": lambda r: -va(r), "cat": lambda r: conv("str", r["s"]) + "-", "len": lambda r: len(conv("str", r["s"])), "cmp": lambda r: int(va(r) > n), "abs": lambda r: abs(va(r))}[opt]
    return compare(obs, "arith", e, "select id, %s as x from %s" % (s, T.ref), [{"id": r["id"], "x": f(r)} for r in T.rows], [T], loose=True)


def function(rng, obs):
    """Conversions of function and expression results."""
    store = pick_store(rng)
    T = Table(rng, store, {"a": "str", "b": "int"}, rng.randrange(1, 8))
    e = build(rng, [T])
    store_hit(obs, [T])
    S, B = form(rng, obs, "str", "a"), form(rng, obs, "int", "b")
    s, f, t = rng.choice([
        ("concat(%s, '7')" % B, lambda r: "%d7" % conv("int", r["b"]), "int"), ("concat('2024-03-0', 1 + 1)", lambda r: "2024-03-02", "date"), ("concat('1', '.5')", lambda r: "1.5", "float"),
        ("%s + 1" % B, lambda r: conv("int", r["b"]) + 1, "str"), ("(%s + 1)" % B, lambda r: conv("int", r["b"]) + 1, "float"), ("upper(%s)" % S, lambda r: conv("str", r["a"]).upper(), "bytes"),
        ("if(%s > 1, '5', 'x')" % B, lambda r: "5" if conv("int", r["b"]) > 1 else "x", "int"), ("case when %s > 1 then '2024-03-05 06:07:08' else null end" % B, lambda r: "2024-03-05 06:07:08" if conv("int", r["b"]) > 1 else None, rng.choice(["datetime", "date", "time"])),
        ("'12'", lambda r: "12", "int"), ("null", lambda r: None, rng.choice(["int", "str", "float", "date"])), ("'2024-02-29'", lambda r: "2024-02-29", "date"), ("3", lambda r: 3, rng.choice(["str", "float", "bool"])),
        ("(select '41')", lambda r: "41", "int"), ("ifnull(null, '6')", lambda r: "6", "int"), ("'zz'", lambda r: "zz", rng.choice(["int", "float", "decimal", "date"]))])
    F = nest(rng, obs, t, s)
    w = rng.random() < 0.2 and t == "int"
    want = [{"id": r["id"], "x": conv(t, f(r))} for r in T.rows]
    sql = "select id, %s as x from %s" % (F, T.ref)
    if w:
        n = rng.choice([0, 5, 17])
        sql += " where %s > %d" % (F, n)
        want = [r for r in want if r["x"] > n]
    return compare(obs, "function", e, sql, want, [T])


def fmt(rng, obs):
    """Annotations with a format."""
    store = pick_store(rng)
    kind = rng.choice(["date", "num", "flt", "datetime", "parse"])
    if kind == "date":
        T = Table(rng, "memory", {}, 0)
        T.rows = [{"id": i + 1, "a": v, "b": v} for i, v in enumerate(rng.choice(DTS + [None]) for _ in range(rng.randrange(1, 7)))]
        f = rng.choice(["%Y/%m/%d", "%H:%M", "%Y-%m-%d %H", "%d.%m.%Y %H:%M:%S"])
        F, g = "`a[%s %s]`" % (rng.choice(["str", "varchar", "text"]), f), lambda v: v.strftime(f) if v else ""
    elif kind == "num":
        T = Table(rng, "memory", {}, 0)
        T.rows = [{"id": i + 1, "a": v, "b": v} for i, v in enumerate(rng.choice(INTS + [None]) for _ in range(rng.randrange(1, 7)))]
        f = rng.choice(["%03d", "%x", "n=%d", "%5d."])
        F, g = "`a[str %s]`" % f, lambda v: "" if v is None else f % v
    elif kind == "flt":
        T = Table(rng, "memory", {}, 0)
        T.rows = [{"id": i + 1, "a": v, "b": v} for i, v in enumerate(rng.choice(FLTS + [None]) for _ in range(rng.randrange(1, 7)))]
        f = rng.choice(["%.2f", "%.0f", "%g", "%8.3f"])
        F, g = "`a[%s %s]`" % (rng.choice(["str", "char"]), f), lambda v: "" if v is None else f % v
    else:
        T = Table(rng, store, {}, 0)
        f = rng.choice(["%d/%m/%Y", "%Y.%m.%d %H~%M"])
        T.rows = [{"id": i + 1, "a": v, "b": v} for i, v in enumerate(rng.choice([x.strftime(f) for x in DTS] + ["junk"]) for _ in range(rng.randrange(1, 7)))]
        t = rng.choice(["date", "datetime"])

        def g(v):
            try:
                x = dt.strptime(v, f)
            except ValueError:
                return None
            return x if t == "datetime" else x.date()
        F = "`a[%s %s]`" % (t, f)
    obs.hit("form_annotation")
    e = build(rng, [T])
    store_hit(obs, [T])
    return compare(obs, "format", e, "select id, %s as x, b from %s" % (F, T.ref), [{"id": r["id"], "x": g(r["a"]), "b": r["b"]} for r in T.rows], [T])


def insert(rng, obs):
    """Converted values written to a table, and a type on the columns of an INSERT."""
    store = pick_store(rng)
    T = Table(rng, store, types_of(rng, ["a", "b"], SCALAR), rng.randrange(1, 8))
    e = build(rng, [T])
    store_hit(obs, [T])
    ta, tb = T.types["a"], T.types["b"]
    k = rng.randrange(3)
    if k == 0:
        sql = "insert into o24 select id, %s as x, b from %s" % (form(rng, obs, ta, "a"), T.ref)
        want = [{"id": r["id"], "x": conv(ta, r["a"]), "b": r["b"]} for r in T.rows]
    elif k == 1:
        sql = "insert into o24 (id, x, y) select id, %s as a, %s as b from %s" % (form(rng, obs, ta, "a"), form(rng, obs, tb, "b"), T.ref)
        want = [{"id": r["id"], "x": conv(ta, r["a"]), "y": conv(tb, r["b"])} for r in T.rows]
    else:
        # a type on a column of INSERT VALUES
        obs.hit("form_annotation")
        ta = rng.choice(["int", "float", "str", "bool", "decimal", "date", "datetime", "time"])
        vals = [rng.choice([v for v in sum(POOL[ta], [None]) if v is None or isinstance(v, (int, float, str)) and ok_for("memory", ta, v)]) for _ in range(rng.randrange(1, 5))]
        text_ = lambda v: "null" if v is None else lit(rng, "bool" if isinstance(v, bool) else "str" if isinstance(v, str) else "int" if isinstance(v, int) else "float", v)
        T.rows = [{"id": i + 1, "a": v} for i, v in enumerate(vals)]
        sql = "insert into o24 (id, `x[%s]`, y) values %s" % (ta, ", ".join("(%d, %s, 'r')" % (i + 1, text_(v)) for i, v in enumerate(vals)))
        want = [{"id": i + 1, "x": conv(ta, v), "y": "r"} for i, v in enumerate(vals)]
    note(obs, ta, [r["a"] for r in T.rows])
    r = eng.attempt(e.execute, sql)
    got = r if isinstance(r, eng.Raised) else e.pop_memory_datas("o24")
    return compare(obs, "insert", e, sql, want, [T], got=got)


def lists(rng, obs):
    """A list is converted element by element."""
    t, store = rng.choice(["int", "float", "str", "bool", "decimal", "date", "datetime"]), rng.choice(["memory", "memory", "json"])
    T = Table(rng, store, {"a": t}, rng.randrange(1, 6))
    for r in T.rows:
        if rng.random() < 0.7:
            r["a"] = raws(rng, t, rng.randrange(0, 5), store)
    e = build(rng, [T])
    store_hit(obs, [T])
    f = lambda v: [conv(t, x) for x in v] if isinstance(v, list) else conv(t, v)
    return compare(obs, "lists", e, "select id, %s as x, a from %s" % (form(rng, obs, t, "a"), T.ref), [{"id": r["id"], "x": f(r["a"]), "a": r["a"]} for r in T.rows], [T])


KINDS = {"direct": direct, "where": where, "join": join, "group": group, "order": order, "aggregate": aggregate, "distinct": distinct, "subquery": subquery, "window": window, "case": case, "twice": twice, "arith": arith, "function": function, "format": fmt, "insert": insert, "lists": lists}
MIX = ["direct"] * 6 + ["where"] * 6 + ["join"] * 3 + ["group"] * 4 + ["order"] * 3 + ["aggregate"] * 2 + ["distinct"] * 2 + ["subquery"] * 3 + ["window"] * 2 + ["case"] * 2 + ["twice"] * 3 + ["arith"] * 2 + ["function"] * 2 + ["format"] * 2 + ["insert"] * 2 + ["lists"]


def make(rng, i, tier):
    return {"kind": rng.choice(MIX), "seed": rng.randrange(2 ** 48), "n": 1 if tier == "quick" else 2}


def run(case_, obs):
    rng = random.Random(case_["seed"])
    for _ in range(case_["n"]):
        if not KINDS[case_["kind"]](rng, obs):
            return
