"""C23: user functions see each row (group, partition) once with its own arguments, and names resolve to the session's own imports.

User functions written for the check record every call and return a value that spells out its arguments with their exact types, so that a
result row shows which arguments reached which function.  A reference evaluates the same query over the same rows in plain Python; the call
log is compared with the calls the rows call for.
"""
import copy, datetime, decimal, json, os, sys, types, zlib
from vlib import eng, harness

META = {
    "id": "C23", "sizes": {"quick": 16000, "thorough": 200000}, "chunk": 30,
    "rule": "a query calling user functions ran over at least one row; result rows (which spell out the arguments received) and the calls logged by the functions were compared with a reference evaluation",
    "required": {"queries": 6000, "select": 900, "where": 400, "order": 250, "group": 400, "aggregate": 500, "window": 500, "generate": 400, "yield_array": 80, "join": 300, "nest": 400, "names": 500, "const": 150, "identity": 200, "transform": 100,
                 "log_exact": 1500, "log_order": 500, "state": 250, "ext": 400, "calls": 30000, "builtin_kept": 400, "batch": 250, "override": 300, "own_session": 400, "use": 500, "class": 500, "module": 1000, "function": 1000},
    "technique": "runtime monitoring: user functions that log every call (arguments, order, state) in generated queries at every position; results and call logs compared with a reference evaluation",
    "note": "A generator stands in the select list of a query without grouping or DISTINCT (two generators are paired item by item). An imported function that raises gives NULL (external engine).",
}

LOG = []
INT, FLT, STR, ANY = ["a", "k"], ["x"], ["s"], ["o"]


def tagged(tag):
    def fn(*a):
        LOG.append((tag, a))
        return tag + repr(a)
    return fn


def hashed(tag, n):
    def fn(*a):
        LOG.append((tag, a))
        return zlib.crc32(repr(a).encode("utf-8", "surrogatepass")) % n
    return fn


def truth(*a):
    LOG.append(("t", a))
    return zlib.crc32(repr(a).encode("utf-8", "surrogatepass")) % 3 > 0


def ident(x):
    LOG.append(("idn", (x,)))
    return x


def items(tag):
    def gen(*a):
        LOG.append((tag, a))
        for i in range(zlib.crc32(repr(a).encode("utf-8", "surrogatepass")) % 4):
            yield [i, "%s%d%r" % (tag, i, a), None, {"i": i}, (tag, i)][(i + len(a)) % 5]
    return gen


class Counter:
    n = 0


def count():
    Counter.n += 1
    LOG.append(("cnt", ()))
    return Counter.n


# reference functions, by tag; what is called in SQL and how it is spelt
PY = {t: tagged(t) for t in ("f", "lam", "mf", "big", "sub", "xf", "meth", "uf", "camel", "ext", "my")}
PY.update(h=hashed("h", 5), mh=hashed("mh", 9), xh=hashed("xh", 7), t=truth, idn=ident, cnt=count, mcnt=count)
GEN = {t: items(t) for t in ("g", "mg", "xg", "ug")}
SPELL = {"my": ["my23", "My23"], "f": ["f23", "F23"], "lam": ["lam23"], "mf": ["m23$f", "M23$F"], "big": ["m23$big_name", "m23$BigName", "m23$bigname", "m23$BIG_NAME"], "sub": ["m23$sub$f", "m23$Sub$F"], "xf": ["x23_f", "X23_F"], "meth": ["m23$obj$meth", "m23$Obj$Meth"],
         "uf": ["u23$f", "U23$f"], "camel": ["Camel23", "camel23", "CAMEL23"], "h": ["h23"], "mh": ["m23$h"], "xh": ["x23_h"], "t": ["t23", "m23$t"], "idn": ["idn23", "m23$idn"], "cnt": ["cnt23"], "mcnt": ["m23$cnt"],
         "ext": ["ext23_f", "Ext23_F"], "g": ["g23", "G23"], "mg": ["m23$g", "m23$sub$g"], "xg": ["x23_gen"], "ug": ["u23$gen", "U23$GEN"]}
KIND = {"ext": "ext", "my": "mysql", "xf": "class", "xh": "class", "xg": "class", "f": "function", "lam": "function", "h": "function", "t": "function", "idn": "function", "cnt": "function", "g": "function", "camel": "function"}
BUILTIN = {"upper": ("upper('aé1')", "AÉ1"), "concat": ("concat('a', 1)", "a1"), "abs": ("abs(-3)", 3), "char_length": ("char_length('abc')", 3), "floor": ("floor(2.5)", 2), "reverse": ("reverse('abc')", "cba"), "ifnull": ("ifnull(null, 4)", 4),
           "sum": ("sum(id)", "sum"), "count": ("count(*)", "count"), "max": ("max(id)", "max"), "group_concat": ("group_concat(id)", "gc"), "if": ("if(1 = 1, 'y', 'n')", "y"), "replace": ("replace('aba', 'a', 'c')", "cbc"), "round": ("round(2.4)", 2),
           "lower": ("lower('AB')", "ab"), "mod": ("mod(7, 4)", 3), "trim": ("trim(' a ')", "a"), "left": ("left('abc', 2)", "ab"), "json_extract": ("json_extract('{\"a\": 3}', '$.a')", 3), "row_number": ("row_number() over (order by id)", "rn"), "yield_array": ("yield_array(json_array(1, 2))", "ya")}
XCLS = {}


def init_worker(scratch):
    from syncanysql import calculaters as C
    from syncanysql import Calculater, register_calculater, TransformCalculater
    m = types.ModuleType("m23mod")
    m.f, m.BigName, m.h, m.t, m.idn, m.cnt, m.g = PY["mf"], PY["big"], PY["mh"], PY["t"], PY["idn"], PY["mcnt"], GEN["mg"]
    m.sub = types.SimpleNamespace(f=PY["sub"], g=GEN["mg"], Val=(1, "v"))
    m.obj = Meth()
    m.LoadTime, m.MAX_ITEMS, m.upper, m.concat = 17.5, "max items", tagged("mupper"), tagged("mconcat")
    sys.modules["m23mod"] = m
    u = types.ModuleType("u23mod")
    u.f, u.gen = PY["uf"], GEN["ug"]
    sys.modules["u23mod"] = u
    pk = types.ModuleType("pk23")
    pk.__path__ = []
    pk.part = types.ModuleType("pk23.part")
    pk.part.f = tagged("part")
    sys.modules["pk23"], sys.modules["pk23.part"] = pk, pk.part
    for i in range(6):
        d = types.ModuleType("dup23_%d" % i)
        d.f, d.gen, d.Val = tagged("dup%d" % i), items("dg%d" % i), "val%d" % i
        sys.modules[d.__name__] = d

    def reg(name, base, **methods):
        XCLS[name] = type(name.title().replace("_", ""), (base,), methods)
        register_calculater(name)(XCLS[name])
    C.register_mysql_func("my23", lambda *a: PY["my"](*a))
    reg("x23_f", Calculater, calculate=lambda self, *a: PY["xf"](*a))
    reg("x23_h", Calculater, calculate=lambda self, *a: PY["xh"](*a))

    def gen(self, *a):
        yield from GEN["xg"](*a)
    reg("x23_gen", C.GenerateCalculater, calculate=gen)

    def step(self, state, v):
        LOG.append(("agg", (len(state or []), freeze(v))))
        return (state or []) + [v]
    reg("x23_agg", C.StateAggregateCalculater, aggregate=step, reduce=lambda self, state, v: (state or []) + (v or []), final_value=lambda self, state: "agg%r" % (state,))

    def add(self, state, v):
        LOG.append(("plain", (freeze(v),)))
        return (state or 0) * 3 % 1000003 + (0 if v is None else zlib.crc32(repr(v).encode()) % 1000)
    reg("x23_plain", C.AggregateCalculater, aggregate=add, reduce=add)

    def wstep(self, state, v, ctx):
        LOG.append(("win", (ctx.current_index, freeze(v))))
        return (state or []) + [(ctx.current_index, v)]
    reg("x23_win", C.WindowStateAggregateCalculater, aggregate=wstep, order_aggregate=wstep, final_value=lambda self, state: "win%r" % (state,))
    reg("x23_wplain", C.WindowAggregateCalculater, order_aggregate=lambda self, state, v, ctx: (state or 0) * 3 % 1000003 + ctx.current_index + zlib.crc32(repr(v).encode()) % 1000)

    with open("ext23mod.py", "w") as fp:
        fp.write("from syncanysql import Calculater, register_calculater\nfrom checks.c23_userfuncs import PY\n\n@register_calculater('ext23_f')\nclass F(Calculater):\n    def calculate(self, *a):\n        return PY['ext'](*a)\n")
    sys.path.insert(0, os.getcwd())
    eng.engine(None, {"extensions": ["ext23mod"]})

    def number(self, datas):
        LOG.append(("tr", (len(datas),)))
        keys = list(datas[0]) if datas else []
        for i, d in enumerate(datas):
            d["nr"] = "%d/%d" % (i + 1, len(datas))
        self.update_outputer_schema(keys + ["nr"])
        return datas
    reg("x23_number", TransformCalculater, calculate=number)


class Meth:
    def meth(self, *a):
        return PY["meth"](*a)


def freeze(v):
    return tuple(freeze(x) for x in v) if isinstance(v, list) else repr(v) if isinstance(v, dict) else v


# ---------------------------------------------------------------- expressions
def lit(v):
    if v is None:
        return "NULL"
    if v is True or v is False:
        return str(v).upper()
    if isinstance(v, str):
        return "'%s'" % v.replace("\\", "\\\\").replace("'", "\\'")
    return repr(v)


STRS = ["", "x", "it's", 'say "hi"', "a,b", "(x)", "é漢", "$1", "@v", "%s", "a b", "1", "null", "back\\slash", ";x", "#h"]
WORDS = ["x", "y", "é", "A b", "q'r", None]


def gen_arg(rng, depth):
    r = rng.random()
    if r < 0.45:
        return ("col", rng.choice(["a", "k", "x", "s", "id"]))
    if r < 0.65:
        return ("lit", rng.choice([0, 1, -1, 7, -250, 3.5, 0.25, -2.5, None, True, False, 2 ** 40] + STRS))
    if r < 0.75 and depth > 0:
        return gen_call(rng, depth - 1)
    k = rng.choice(["plus", "concat", "case", "coalesce", "upper", "casecall", "neg"])
    if k == "neg":
        return ("neg", ("col", "a"))
    if k == "plus":
        return ("plus", ("col", rng.choice(INT)), rng.randint(1, 9))
    if k == "concat":
        return ("concat", ("col", "s"), rng.choice(["!", "-b"]))
    if k == "case":
        return ("case", ("col", "id"), rng.randint(0, 6), ("col", rng.choice(["a", "s"])), ("lit", rng.choice([None, "els", 5])))
    if k == "casecall" and depth > 0:
        return ("case", ("col", "id"), rng.randint(0, 6), gen_call(rng, 0), gen_call(rng, 0))
    if k == "coalesce":
        return ("coalesce", ("col", rng.choice(["a", "s", "x"])), rng.choice([0, "none"]))
    return ("upper", ("col", "s"))


TAGS = ["f", "f", "lam", "mf", "mf", "big", "sub", "xf", "xf", "meth", "uf", "camel", "ext", "my"]


def gen_call(rng, depth=1, tags=None):
    tag = rng.choice(tags or TAGS)
    n = 1 if tag == "idn" else rng.choice([0, 1, 1, 1, 2, 2, 3, 5] if tag in TAGS else [1, 1, 2, 3])
    return ("call", tag, rng.choice(SPELL[tag]), [gen_arg(rng, depth) for _ in range(n)])


def sql(e, q=""):
    k = e[0]
    if k == "col":
        return q + e[1]
    if k == "lit":
        return lit(e[1])
    if k == "call":
        return "%s(%s)" % (e[2], ", ".join(sql(x, q) for x in e[3]))
    if k == "neg":
        return "-" + sql(e[1], q)
    if k == "plus":
        return "%s + %d" % (sql(e[1], q), e[2])
    if k == "concat":
        return "concat(%s, %s)" % (sql(e[1], q), lit(e[2]))
    if k == "case":
        return "case when %s > %d then %s else %s end" % (sql(e[1], q), e[2], sql(e[3], q), sql(e[4], q))
    if k == "coalesce":
        return "coalesce(%s, %s)" % (sql(e[1], q), lit(e[2]))
    if k == "upper":
        return "upper(%s)" % sql(e[1], q)
    if k == "wrap":
        return e[1] % sql(e[2], q)
    raise ValueError(e)


def ev(e, r):
    k = e[0]
    if k == "col":
        return r[e[1]]
    if k == "lit":
        return e[1]
    if k == "call":
        args = [ev(x, r) for x in e[3]]
        return (PY.get(e[1]) or GEN[e[1]])(*args)
    if k == "neg":
        v = ev(e[1], r)
        return None if v is None else -v
    if k == "plus":
        v = ev(e[1], r)
        return None if v is None else v + e[2]
    if k == "concat":
        v = ev(e[1], r)
        return None if v is None else v + e[2]
    if k == "case":
        v = ev(e[1], r)
        return ev(e[3], r) if v > e[2] else ev(e[4], r)
    if k == "coalesce":
        v = ev(e[1], r)
        return e[2] if v is None else v
    if k == "upper":
        v = ev(e[1], r)
        return None if v is None else v.upper()
    if k == "wrap":
        return e[3](ev(e[2], r))
    raise ValueError(e)


WRAPS = [("concat(%s, '<')", lambda v: v + "<"), ("char_length(%s)", len), ("case when %s = 'zz' then 1 else 2 end", lambda v: 2), ("upper(%s)", lambda v: v.upper()), ("left(%s, 2)", lambda v: v[:2])]
NWRAPS = [("%s + 10", lambda v: v + 10), ("-%s", lambda v: -v), ("%s * 2", lambda v: v * 2), ("case when %s > 2 then 'big' else 'small' end", lambda v: "big" if v > 2 else "small"), ("if(%s = 1, 'one', 'other')", lambda v: "one" if v == 1 else "other")]


def gen_column(rng):
    r = rng.random()
    if r < 0.7:
        return gen_call(rng)
    if r < 0.85:
        t, f = rng.choice(WRAPS)
        return ("wrap", t, gen_call(rng), f)
    t, f = rng.choice(NWRAPS)
    return ("wrap", t, gen_call(rng, 1, ["h", "mh", "xh"]), f)


def tags(e):
    if e[0] == "call":
        yield e[1]
    for x in e[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield from tags(x)
        elif isinstance(x, list):
            for y in x:
                yield from tags(y)


def ncalls(e):
    return len(list(tags(e)))


def conditional(e):
    return e[0] in ("case", "coalesce") or any(conditional(x) for y in e[1:] for x in ([y] if isinstance(y, tuple) and y and isinstance(y[0], str) else y if isinstance(y, list) else []))


def rows(rng, n):
    return [{"id": j + 1, "a": rng.choice([None, 0, 1, 5, 7, -3, 10]), "k": rng.choice([1, 1, 2, 3, None]), "x": rng.choice([None, 0.5, 2.0, -1.25]), "s": rng.choice(WORDS)} for j in range(n)]


def truthy(x):
    return x is not None and bool(x)


def evaluate(data, cols):
    del LOG[:]
    Counter.n = 0
    out = [{n: ev(e, r) for n, e in cols} for r in data]
    return out, list(LOG)


# ---------------------------------------------------------------- cases
def make(rng, i, tier):
    return {"seed": rng.getrandbits(60), "kind": KINDS[rng.randrange(len(KINDS))]}


KINDS = ["select"] * 6 + ["where"] * 3 + ["order"] * 2 + ["group"] * 3 + ["aggregate"] * 4 + ["window"] * 4 + ["generate"] * 5 + ["join"] * 3 + ["nest"] * 4 + ["names"] * 5 + ["const"] * 2 + ["identity"] * 2 + ["transform", "state"]


def session(rng, tables, obs, settings=None):
    """An engine with the imports, made known in one of the ways there are."""
    cfg = {"imports": {}, "extensions": []}
    how = rng.randrange(3)
    if how == 0:
        cfg["imports"] = {"m23": "m23mod", "u23": "u23mod"}
    e = eng.engine(tables, cfg if how == 0 else None, settings)
    if how == 1:
        e.execute("use `m23mod as m23`;\nuse `u23mod as u23`")
        obs.hit("use")
    elif how == 2:
        e.use("m23", sys.modules["m23mod"])
        e.use("u23", "u23mod")
    for tag, name in (("f", "f23"), ("h", "h23"), ("t", "t23"), ("idn", "idn23"), ("cnt", "cnt23"), ("camel", "Camel23")):
        e.use(name, PY[tag])
    e.use("lam23", lambda *a: PY["lam"](*a))
    e.use("g23", GEN["g"])
    return e


def place(rng, tables, obs, allow=True):
    """engine + name of the table in FROM: a memory table or a JSON file, read in batches or at once"""
    if allow and rng.random() < 0.25:
        d = os.path.join(harness.scratch(), "c23")
        os.makedirs(d, exist_ok=True)
        names = {}
        for n, data in tables.items():
            with open(os.path.join(d, n + ".json"), "w") as fp:
                json.dump(data, fp)
            names[n] = "`file://%s/%s.json`" % (d, n)
        b = rng.choice([0, 1, 2, 3, 100])
        if b:
            obs.hit("batch")
        return session(rng, None, obs, {"@batch": b} if b else None), names
    return session(rng, tables, obs), {n: n for n in tables}


def ask(e, text):
    del LOG[:]
    Counter.n = 0
    return eng.attempt(eng.query, e, text), list(LOG)


def same(got, want, ordered=True):
    if isinstance(got, eng.Raised):
        return False
    a, b = [typed(r) for r in got], [typed(r) for r in want]
    return a == b if ordered else sorted(a, key=repr) == sorted(b, key=repr)


def typed(v):
    """Exact form of a result: values with their types (the boolean results of built-in operators aside, none are generated)."""
    if isinstance(v, dict):
        return ("m",) + tuple(sorted((k, typed(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(typed(x) for x in v)
    if isinstance(v, datetime.datetime):
        return ("dt", v.replace(tzinfo=None).isoformat())
    return (type(v).__name__, repr(v))


def flog(log):
    return [(t, repr(a)) for t, a in log]


def run(case, obs):
    import random
    rng = random.Random(case["seed"])
    kind = case["kind"]
    obs.hit(kind)
    KIND_RUN[kind](rng, obs)


def seen(obs, *exprs):
    for e in exprs:
        for t in tags(e):
            obs.hit(KIND.get(t, "module"))


def settle(obs, kind, text, got, want, log, wlog, ordered=True, exact=False, order=False, **more):
    obs.hit("queries")
    obs.hit("calls", len(log))
    if not same(got, want, ordered):
        obs.fail(kind, "result of a query calling user functions", sql=text, got=got, want=want, **more)
        return False
    if exact:
        obs.hit("log_exact")
        if sorted(flog(log)) != sorted(flog(wlog)):
            obs.fail(kind, "calls received by the user functions", sql=text, got=log, want=wlog, **more)
            return False
    elif not set(flog(log)) <= set(flog(wlog)):
        obs.fail(kind, "a user function was called with arguments of no row", sql=text, got=log, want=wlog, **more)
        return False
    if order:
        obs.hit("log_order")
        if flog(log) != flog(wlog):
            obs.fail(kind, "order of the calls received by a user function", sql=text, got=log, want=wlog, **more)
            return False
    if want:
        obs.nontrivial(text, want)
    obs.sample({"sql": text, "rows": want[:3], "calls": wlog[:3]})
    return True


def select_case(rng, obs):
    data = rows(rng, rng.choice([1, 2, 4, 6, 9]))
    e, at = place(rng, {"t1": data}, obs)
    cols = [("c%d" % j, gen_column(rng)) for j in range(rng.choice([1, 1, 2, 3, 5]))]
    seen(obs, *[c for _, c in cols])
    cut = rng.choice([0, 0, 0, 2, 3])
    use = [r for r in data if r["id"] > cut]
    text = "select id, %s from %s%s" % (", ".join("%s %s" % (sql(x), n) for n, x in cols), at["t1"], " where id > %d" % cut if cut else "")
    desc, limit = rng.random() < 0.25, rng.choice([None, None, None, 2])
    if desc:
        text += " order by id desc"
    if limit:
        text += " limit %d" % limit
    full, wlog = evaluate(use, [("id", ("col", "id"))] + cols)
    want = full[::-1] if desc else full
    want = want[:limit] if limit else want
    got, log = ask(e, text)
    exact = not limit and not any(conditional(c) for _, c in cols)
    settle(obs, "select", text, got, want, log, wlog, exact=exact, order=exact and not desc and len(cols) == 1 and ncalls(cols[0][1]) == 1, data=data)


def where_case(rng, obs):
    data = rows(rng, rng.choice([2, 4, 6, 9]))
    e, at = place(rng, {"t1": data}, obs)
    t = rng.choice(["t", "eq", "in", "gt", "two", "ne"])
    allv = []
    if t == "t":
        c = ("call", "t", rng.choice(SPELL["t"]), [gen_arg(rng, 1) for _ in range(rng.choice([1, 2]))])
        cond, keep, calls = sql(c), lambda r: bool(ev(c, r)), [c]
    elif t in ("eq", "ne"):
        c = gen_call(rng, 0)
        v = ev(c, rng.choice(data))
        cond, keep, calls = "%s %s %s" % (sql(c), "=" if t == "eq" else "<>", lit(v)), lambda r: (ev(c, r) == v) == (t == "eq"), [c]
    elif t == "in":
        c = gen_call(rng, 1, ["h", "mh", "xh"])
        vs = rng.sample(range(9), 3)
        cond, keep, calls = "%s in (%s)" % (sql(c), ", ".join(map(str, vs))), lambda r: ev(c, r) in vs, [c]
    elif t == "gt":
        c = gen_call(rng, 1, ["h", "mh", "xh"])
        n = rng.randint(0, 5)
        op = rng.choice([">", ">=", "<", "<="])
        cond, keep, calls = "%s %s %d" % (sql(c), op, n), lambda r: {">": ev(c, r) > n, ">=": ev(c, r) >= n, "<": ev(c, r) < n, "<=": ev(c, r) <= n}[op], [c]
    else:
        c, d = gen_call(rng, 0, ["h", "mh", "xh"]), ("call", "t", rng.choice(SPELL["t"]), [("col", rng.choice(["id", "s"]))])
        op = rng.choice(["and", "or"])
        cond, keep, calls = "(%s > 2 %s %s)" % (sql(c), op, sql(d)), lambda r: (ev(c, r) > 2 and bool(ev(d, r))) if op == "and" else (ev(c, r) > 2 or bool(ev(d, r))), [c, d]
    seen(obs, *calls)
    cut = rng.choice([0, 0, 1])
    if cut:
        cond += " and id > 1"
    text = "select id, s from %s where %s" % (at["t1"], cond)
    del LOG[:]
    want = [{"id": r["id"], "s": r["s"]} for r in data if r["id"] > cut and keep(r)]
    for r in data:
        for c in calls:
            ev(c, r)
    wlog = list(LOG)
    got, log = ask(e, text)
    settle(obs, "where", text, got, want, log, wlog, data=data)


def order_case(rng, obs):
    data = rows(rng, rng.choice([2, 4, 6, 9]))
    e, at = place(rng, {"t1": data}, obs)
    c = gen_call(rng, 1, ["h", "mh", "xh"]) if rng.random() < 0.6 else gen_call(rng, 0)
    seen(obs, c)
    desc = rng.random() < 0.5
    lim = rng.choice([None, None, 2, 3])
    text = "select id, %s c from %s order by %s%s, id%s" % (sql(c), at["t1"], rng.choice(["c", sql(c)]), " desc" if desc else "", " limit %d" % lim if lim else "")
    full, wlog = evaluate(data, [("id", ("col", "id")), ("c", c)])
    want = sorted(full, key=lambda r: r["id"])
    want.sort(key=lambda r: r["c"], reverse=desc)
    got, log = ask(e, text)
    settle(obs, "order", text, got, want[:lim], log, wlog, data=data)


def grouped(data, key):
    g = {}
    for r in data:
        g.setdefault(repr(key(r)), []).append(r)
    return list(g.values())


def group_case(rng, obs):
    data = rows(rng, rng.choice([2, 4, 6, 9, 12]))
    e, at = place(rng, {"t1": data}, obs)
    c = gen_call(rng, 0, ["h", "mh", "xh"]) if rng.random() < 0.5 else gen_call(rng, 0, ["f", "mf", "xf", "uf"])
    d = gen_call(rng, 0, ["h", "mh", "xh"])
    seen(obs, c, d)
    by = rng.choice(["call", "alias", "col"])
    key, head = (("col", "k"), "k g") if by == "col" else (c, "%s g" % sql(c))
    text = "select %s, count(*) n, sum(%s) sm, max(%s) mx, %s(min(id)) o from %s group by %s" % (head, sql(d), sql(c), "f23", at["t1"], {"call": sql(c), "alias": "g", "col": "k"}[by])
    hv = rng.random() < 0.3
    if hv:
        text += " having n > 1"
    del LOG[:]
    want = []
    for g in grouped(data, lambda r: ev(key, r)):
        cv = [ev(c, r) for r in g]
        want.append({"g": ev(key, g[0]), "n": len(g), "sm": sum(ev(d, r) for r in g), "mx": max(cv), "o": PY["f"](min(r["id"] for r in g))})
    wlog = list(LOG)
    if hv:
        want = [w for w in want if w["n"] > 1]
    got, log = ask(e, text)
    settle(obs, "group", text, got, want, log, wlog, data=data)


def plain(vals):
    s = None
    for v in vals:
        s = (s or 0) * 3 % 1000003 + (0 if v is None else zlib.crc32(repr(v).encode()) % 1000)
    return s


def agg_args(rng):
    n = rng.choice([1, 1, 1, 2, 3])
    return [rng.choice([("col", "a"), ("col", "s"), ("col", "id"), ("col", "x"), ("plus", ("col", "a"), 2), ("coalesce", ("col", "s"), "none"), ("call", "h", "h23", [("col", "a")]), ("call", "f", "f23", [("col", "id"), ("col", "s")])]) for _ in range(n)]


def argval(args, r):
    vals = [ev(a, r) for a in args]
    return vals[0] if len(vals) == 1 else vals


def agg_log(log):
    return [x for x in log if x[0] in ("agg", "win", "plain")]


def aggregate_case(rng, obs):
    data = rows(rng, rng.choice([1, 3, 5, 8, 12]))
    e, at = place(rng, {"t1": data}, obs)
    batched = bool(e.executor.env_variables.get("@batch"))
    args = agg_args(rng)
    by = rng.choice([None, "k", "k", "h"])
    key = {None: lambda r: 0, "k": lambda r: r["k"], "h": lambda r: PY["h"](r["s"])}[by]
    cols = ["x23_agg(%s) z" % ", ".join(map(sql, args)), "count(*) n"]
    extra = rng.choice(["", "plain", "wrap", "both"]) if not batched else ""
    if extra in ("plain", "both"):
        cols.append("X23_PLAIN(a) p")
    if extra in ("wrap", "both"):
        cols.append("f23(x23_agg(id), count(*)) w")
    if by:
        cols.insert(0, {"k": "k", "h": "h23(s) g"}[by])
    cut = rng.choice([0, 0, 1])
    text = "select %s from %s%s%s" % (", ".join(cols), at["t1"], " where id > 1" if cut else "", {None: "", "k": " group by k", "h": " group by h23(s)"}[by])
    use = [r for r in data if r["id"] > cut]
    hv = rng.random() < 0.2
    if hv:
        text += " having n > 1"
    want, wlog = [], []
    for g in grouped(use, key):
        vals = [argval(args, r) for r in g]
        w = {"z": "agg%r" % (vals,), "n": len(g)}
        wlog += [("agg", (j, freeze(v))) for j, v in enumerate(vals)]
        if extra in ("plain", "both"):
            w["p"] = plain([r["a"] for r in g])
            wlog += [("plain", (freeze(r["a"]),)) for r in g]
        if extra in ("wrap", "both"):
            ids = [r["id"] for r in g]
            wlog += [("agg", (j, v)) for j, v in enumerate(ids)]
            w["w"] = PY["f"]("agg%r" % (ids,), len(g))
        if by:
            w["k" if by == "k" else "g"] = key(g[0])
        if not hv or len(g) > 1:
            want.append(w)
    got, log = ask(e, text)
    seen(obs, *args)
    if batched:
        # a batch starts its own states: only which values were seen is compared
        log, wlog = [("agg", a[1:]) for _, a in agg_log(log)], [("agg", a[1:]) for _, a in wlog]
    settle(obs, "aggregate", text, got, want, agg_log(log), wlog, exact=True, data=data, args=args)


def window_case(rng, obs):
    data = rows(rng, rng.choice([1, 3, 5, 8, 12]))
    e, at = place(rng, {"t1": data}, obs)
    args = agg_args(rng)
    seen(obs, *args)
    part, order = rng.choice([None, "k", "k", "h"]), rng.choice([None, "id", "id desc", "a, id", "a desc, id desc", "h23(s), id"])
    key = {None: lambda r: 0, "k": lambda r: r["k"], "h": lambda r: PY["h"](r["s"])}[part]
    fn = rng.choice(["x23_win", "x23_agg", "x23_agg", "x23_wplain", "lead"]) if order or part or True else ""
    if fn == "lead":
        fn = "x23_win"
    over = "%s%s" % ({None: "", "k": "partition by k", "h": "partition by h23(s)"}[part], (" order by " + order) if order else "")
    named = rng.random() < 0.15
    spell = rng.choice([fn, fn.upper()])
    text = "select id, %s(%s) over %s z from %s%s" % (spell, ", ".join(map(sql, args)), "w" if named else "(%s)" % over, at["t1"], " window w as (%s)" % over if named else "")
    want, wlog = {}, []
    none = lambda v: (v is not None, v if v is not None else 0)
    for g in grouped(data, key):
        g = list(g)
        if order:
            for o in reversed(order.split(", ")):
                col, d = o.split(" ")[0], o.endswith("desc")
                g.sort(key=lambda r: none(PY["h"](r["s"]) if col == "h23(s)" else r[col]), reverse=d)
        vals = [argval(args, r) for r in g]
        for j, r in enumerate(g):
            if fn == "x23_win":
                z = "win%r" % ([(q, v) for q, v in enumerate(vals[:j + 1])],)
            elif fn == "x23_wplain":
                s = None
                for q, v in enumerate(vals[:j + 1]):
                    s = (s or 0) * 3 % 1000003 + q + zlib.crc32(repr(v).encode()) % 1000
                z = s
            else:
                z = "agg%r" % (vals[:j + 1] if order else vals,)
            want[r["id"]] = z
        if fn != "x23_wplain":
            wlog += [("win" if fn == "x23_win" else "agg", (j, freeze(v))) for j, v in enumerate(vals)]
    got, log = ask(e, text)
    settle(obs, "window", text, got, [{"id": r["id"], "z": want[r["id"]]} for r in data], agg_log(log), wlog, exact=True, data=data, args=args)


def yield_case(rng, obs):
    """yield_array: one row per item of the list (none for an empty list), one row for anything else"""
    item = lambda: rng.choice([0, 1, 2.5, "a", "", None, True, [1], [], {"k": 1}])
    value = lambda: [item() for _ in range(rng.choice([0, 0, 1, 2, 3, 5]))] if rng.random() < 0.75 else rng.choice([None, 7, "x", "", {"k": [1]}, 0])
    data = [{"id": i + 1, "k": rng.randint(0, 2), "l": value(), "m": value()} for i in range(rng.choice([1, 2, 4, 7]))]
    e = eng.engine({"t1": copy.deepcopy(data)})
    items = lambda v: v if isinstance(v, list) else [v]
    how = rng.choice(["l", "l", "lm", "array", "where", "sub", "pair", "count"])
    text, want = "select id, yield_array(l) as g from t1", [{"id": r["id"], "g": x} for r in data for x in items(r["l"])]
    if how == "lm":
        text, want = "select yield_array(m) as g, k, id from t1", [{"g": x, "k": r["k"], "id": r["id"]} for r in data for x in items(r["m"])]
    elif how == "array":
        text, want = "select id, yield_array(json_array(k, id, 'z')) as g from t1", [{"id": r["id"], "g": x} for r in data for x in (r["k"], r["id"], "z")]
    elif how == "where":
        text, want = text + " where k > 0", [{"id": r["id"], "g": x} for r in data if r["k"] > 0 for x in items(r["l"])]
    elif how == "sub":
        text = "select v.id, v.g from (%s) v where v.id > 1" % text
        want = [w for w in want if w["id"] > 1]
    elif how == "count":
        text = "select v.id, count(*) as n from (%s) v group by v.id" % text
        want = [{"id": r["id"], "n": len(items(r["l"]))} for r in data if items(r["l"])]
    elif how == "pair":
        text = "select id, yield_array(l) as g, yield_array(m) as h from t1"
        want = []
        for r in data:
            a, b = items(r["l"]), items(r["m"])
            want += [{"id": r["id"], "g": a[j] if j < len(a) else None, "h": b[j] if j < len(b) else None} for j in range(max(len(a), len(b)))]
    got = eng.attempt(eng.query, e, text)
    obs.hit("yield_array")
    if isinstance(got, eng.Raised) or repr([dict(r) for r in got]) != repr(want):
        return obs.fail("yield_array", "yield_array does not give one row per item", sql=text, got=got, want=want, data=data)
    obs.nontrivial(text, repr(data))


def generate_case(rng, obs):
    if rng.random() < 0.15:
        return yield_case(rng, obs)
    data = rows(rng, rng.choice([1, 2, 4, 6]))
    e, at = place(rng, {"t1": data}, obs)
    calls = [gen_gen(rng)]
    if rng.random() < 0.2:
        calls.append(gen_gen(rng))
    seen(obs, *calls)
    other = [("id", ("col", "id"))] + [("c%d" % j, gen_column(rng)) for j in range(rng.choice([0, 0, 1]))]
    cut = rng.choice([0, 0, 1])
    use = [r for r in data if r["id"] > cut]
    cols = [(n, x) for n, x in other] + [("g%d" % j, c) for j, c in enumerate(calls)]
    if rng.random() < 0.3:
        cols = cols[-1:] + cols[:-1]
    text = "select %s from %s%s" % (", ".join("%s %s" % (sql(x), n) for n, x in cols), at["t1"], " where id > 1" if cut else "")
    del LOG[:]
    want = []
    for r in use:
        ys = [list(ev(c, r)) for c in calls]
        base = {n: ev(x, r) for n, x in other}
        for j in range(max(len(y) for y in ys)):
            want.append(dict(base, **{"g%d" % q: (y[j] if j < len(y) else None) for q, y in enumerate(ys)}))
    wlog = list(LOG)
    lim = None
    shape = rng.choice(["plain", "plain", "limit", "desc", "sub", "insert"])
    if shape == "limit":
        lim = rng.choice([1, 2, 3])
        text += " limit %d" % lim
    elif shape == "desc":
        text += " order by id desc"
        ids = sorted({w["id"] for w in want}, reverse=True)
        want = [w for q in ids for w in want if w["id"] == q]
    elif shape == "sub":
        text = "select v.id, v.g0 from (%s) v where v.id > %d" % (text, cut)
        want = [{"id": w["id"], "g0": w["g0"]} for w in want]
    if shape == "insert":
        e.execute("insert into w23 " + text)
        text2 = "select id, g0 from w23" if want else None
        obs.hit("gen_insert")
        if not want:
            return
        got = eng.attempt(eng.query, e, text2)
        settle(obs, "generate", text + "; " + text2, got, [{"id": w["id"], "g0": w["g0"]} for w in want], [], [], data=data)
        return
    got, log = ask(e, text)
    settle(obs, "generate", text, got, want[:lim], log, wlog, exact=not lim and not any(conditional(c) for _, c in cols), data=data)


def gen_gen(rng):
    tag = rng.choice(["g", "mg", "xg", "ug"])
    return ("call", tag, rng.choice(SPELL[tag]), [gen_arg(rng, 1) for _ in range(rng.choice([1, 1, 2]))])


def join_case(rng, obs):
    data = rows(rng, rng.choice([1, 3, 5, 7]))
    other = [{"id": j + 1, "k": rng.choice([1, 2, 3, 4]), "v": rng.choice(["p", "q", "it's"])} for j in range(rng.choice([1, 3, 5]))]
    e, at = place(rng, {"t1": data, "t2": other}, obs, allow=False)
    shape = rng.choice(["select", "select", "on", "where", "key"])
    f = rng.choice(["f23", "m23$f", "x23_f"])
    py = PY[{"f23": "f", "m23$f": "mf", "x23_f": "xf"}[f]]
    del LOG[:]
    if shape == "select":
        text = "select a.id, %s(a.a, b.v, b.id) z from t1 a inner join t2 b on a.k = b.k" % f
        want = [{"id": r["id"], "z": py(r["a"], s["v"], s["id"])} for r in data for s in other if r["k"] == s["k"]]
    elif shape == "on":
        text = "select a.id, b.id bid, %s(b.v, a.s) z from t1 a inner join t2 b on a.k = b.k and h23(b.v, b.id) > 1" % f
        want = [{"id": r["id"], "bid": s["id"], "z": py(s["v"], r["s"])} for r in data for s in other if r["k"] == s["k"] and PY["h"](s["v"], s["id"]) > 1]
        for s in other:
            PY["h"](s["v"], s["id"])
    elif shape == "where":
        text = "select a.id, b.id bid, %s(b.v, a.s) z from t1 a inner join t2 b on a.k = b.k where h23(b.v, a.id) > 1" % f
        want = [{"id": r["id"], "bid": s["id"], "z": py(s["v"], r["s"])} for r in data for s in other if r["k"] == s["k"] and PY["h"](s["v"], r["id"]) > 1]
        for r in data:
            PY["h"](None, r["id"])          # a row without a partner is dropped after WHERE
            for s in other:
                py(s["v"], r["s"])
                PY["h"](s["v"], r["id"])
    else:
        text = "select a.id, b.v z from t1 a inner join t2 b on h23(a.id, a.s) = b.id"
        want = [{"id": r["id"], "z": s["v"]} for r in data for s in other if PY["h"](r["id"], r["s"]) == s["id"]]
    wlog = list(LOG)
    got, log = ask(e, text)
    settle(obs, "join", text, got, want, log, wlog, ordered=False, exact=shape == "select", data=data, other=other)


def nest_case(rng, obs):
    data = rows(rng, rng.choice([1, 3, 5, 7]))
    more = rows(rng, rng.choice([1, 3, 4]))
    e, at = place(rng, {"t1": data, "t2": more}, obs)
    c, d = gen_call(rng), gen_call(rng, 0)
    seen(obs, c, d)
    shape = rng.choice(["sub", "subcall", "cte", "union", "insub", "scalar", "insert", "exists"])
    t1, t2 = at["t1"], at["t2"]
    del LOG[:]
    ordered = True
    if shape == "sub":
        text = "select v.id, v.z, f23(v.z, v.id) y from (select id, %s z from %s) v where v.id > 1" % (sql(c), t1)
        want = []
        for r in data:
            z = ev(c, r)
            if r["id"] > 1:
                want.append({"id": r["id"], "z": z, "y": PY["f"](z, r["id"])})
    elif shape == "subcall":
        text = "select count(*) n, x23_agg(v.z) z from (select id, %s z from %s) v" % (sql(c), t1)
        want = [{"n": len(data), "z": "agg%r" % ([ev(c, r) for r in data],)}]
    elif shape == "cte":
        text = "with v as (select id, %s z from %s) select v.id, v.z from v where v.z <> 'q'" % (sql(c), t1)
        text = "with v as (select id, %s z from %s) select id, z from v where z <> 'q'" % (sql(c), t1)
        want = [{"id": r["id"], "z": ev(c, r)} for r in data]
    elif shape == "union":
        text = "select id, %s z from %s union all select id, %s from %s" % (sql(c), t1, sql(d), t2)
        text = "select id, %s z from %s union all select id, %s z from %s" % (sql(c), t1, sql(d), t2)
        want = [{"id": r["id"], "z": ev(c, r)} for r in data] + [{"id": r["id"], "z": ev(d, r)} for r in more]
    elif shape == "insub":
        g = lambda r: PY["h"](r["s"], 1)
        text = "select id from %s where h23(s, 1) in (select h23(s, 1) from %s where id > 0)" % (t1, t2)
        vs = {g(r) for r in more}
        want = [{"id": r["id"]} for r in data if g(r) in vs]
        text = text.replace(" from %s where id > 0" % t2, " v from %s where id > 0" % t2)
    elif shape == "scalar":
        text = "select id, f23(id, (select max(mxx) from (select h23(id) mxx from %s) u)) z from %s" % (t2, t1)
        text = "select id, (select f23(max(id)) from %s) z from %s" % (t2, t1)
        want = [{"id": r["id"], "z": PY["f"](max(x["id"] for x in more))} for r in data]
    elif shape == "insert":
        e.execute("insert into w23 select id, %s z from %s" % (sql(c), t1))
        text = "select id, f23(z) z from w23"
        want = [{"id": r["id"], "z": PY["f"](ev(c, r))} for r in data]
        got, log = ask(e, text)
        settle(obs, "nest", text, got, want, [], [], data=data)
        return
    else:
        text = "select id from %s where exists (select id from %s where h23(s) > 2)" % (t1, t2)
        ok = any(PY["h"](r["s"]) > 2 for r in more)
        for r in more:
            PY["h"](r["s"])
        want = [{"id": r["id"]} for r in data] if ok else []
    wlog = [x for x in LOG]
    got, log = ask(e, text)
    log = [x for x in log if x[0] not in ("agg",)]
    settle(obs, "nest", text, got, want, log, wlog, ordered=ordered, exact=shape in ("sub", "subcall", "union") and not conditional(c) and not conditional(d), data=data, more=more)


def const_case(rng, obs):
    cols = [("c%d" % j, constcall(rng)) for j in range(rng.choice([1, 2, 3]))]
    seen(obs, *[c for _, c in cols])
    e = session(rng, None, obs)
    text = "select " + ", ".join("%s %s" % (sql(x), n) for n, x in cols)
    want, wlog = evaluate([{}], cols)
    if rng.random() < 0.3:
        text += ", m23$load_time() v1, m23$LoadTime() v2, m23$max_items() v3, m23$sub$val() v4"
        want[0].update(v1=17.5, v2=17.5, v3="max items", v4=(1, "v"))
    got, log = ask(e, text)
    if settle(obs, "const", text, got, want, log, wlog, exact=True) and rng.random() < 0.4:
        c = cols[0][1]
        e.execute("set @v23 = %s" % sql(c))
        del LOG[:]
        w = ev(c, {})
        if e.executor.env_variables.get("@v23") != w:
            obs.fail("const", "variable set from a user function", sql="set @v23 = %s" % sql(c), got=e.executor.env_variables.get("@v23"), want=w)
        obs.hit("set")


def constcall(rng, depth=1):
    tag = rng.choice(TAGS)
    args = [constcall(rng, 0) if depth and rng.random() < 0.25 else ("lit", rng.choice([0, 1, -1, 7, 3.5, None, True, False, 2 ** 40] + STRS)) for _ in range(rng.choice([0, 1, 2, 4]))]
    return ("call", tag, rng.choice(SPELL[tag]), args)


def identity_case(rng, obs):
    vals = [1, "x", None, 2.5, True, False, [1, 2], [], ["a", ["b"]], {"a": 1}, {}, (1, 2), b"by\x00", datetime.datetime(2024, 2, 29, 1, 2, 3), datetime.date(2024, 1, 1), datetime.time(3, 4), decimal.Decimal("1.10"), {1, 2}, "", 2 ** 70, -0.5]
    data = [{"id": j + 1, "o": rng.choice(vals)} for j in range(rng.choice([2, 4, 7]))]
    e = session(rng, {"t1": data}, obs)
    f = rng.choice(SPELL["idn"])
    text = rng.choice(["select id, %s(o) z from t1", "select id, f23(o, id) z from t1", "select id, x23_f(o) z from t1", "select id, %s(%s(o)) z from t1"])
    if "%s" not in text:
        # a datetime without a zone gets the session's zone on its way
        data = [r for r in data if not isinstance(r["o"], datetime.datetime)] or [{"id": 1, "o": "only"}]
        e = session(rng, {"t1": data}, obs)
    if "f23" in text:
        want = [{"id": r["id"], "z": PY["f"](r["o"], r["id"])} for r in data]
    elif "x23_f" in text:
        want = [{"id": r["id"], "z": PY["xf"](r["o"])} for r in data]
    else:
        want = [{"id": r["id"], "z": r["o"]} for r in data]
    text = text.replace("%s", f)
    got, log = ask(e, text)
    settle(obs, "identity", text, got, want, [], [])


def transform_case(rng, obs):
    data = rows(rng, rng.choice([1, 2, 5]))
    e = session(rng, {"t1": data}, obs)
    c = gen_call(rng, 0)
    seen(obs, c)
    text = "select x23_number() from (select id, %s z from t1 where id > 0) v" % sql(c)
    del LOG[:]
    want = [{"id": r["id"], "z": ev(c, r), "nr": "%d/%d" % (j + 1, len(data))} for j, r in enumerate(data)]
    wlog = list(LOG) + [("tr", (len(data),))]
    got, log = ask(e, text)
    settle(obs, "transform", text, got, want, log, wlog, exact=not conditional(c), data=data)


def state_case(rng, obs):
    """A function with a state of its own: one call per row, in the order of the rows, also over several queries and inserts."""
    data = rows(rng, rng.choice([1, 3, 6]))
    e, at = place(rng, {"t1": data}, obs)
    f = rng.choice(SPELL["cnt"] + SPELL["mcnt"])
    text = "select id, %s() z from %s" % (f, at["t1"])
    want = [{"id": r["id"], "z": j + 1} for j, r in enumerate(data)]
    got, log = ask(e, text)
    settle(obs, "state", text, got, want, log, [("cnt", ())] * len(data), exact=True, order=True, data=data)


def names_case(rng, obs):
    """Histories of imports in an engine and its sessions: every session resolves a name to its own nearest import."""
    data = [{"id": 1, "s": "x"}, {"id": 2, "s": "y"}]
    engines = [eng.engine({"n23": data}) for _ in range(rng.choice([1, 2]))]
    layers = []          # (session object, its own imports, parent layer)
    for e in engines:
        layers.append([e, {}, None])
    names = ["nm", "fn_a", "util", "N2"]
    for step in range(rng.randint(5, 10)):
        li = rng.randrange(len(layers))
        s, own, parent = layers[li]
        r = rng.random()
        if r < 0.15 and len(layers) < 5 and parent is None:
            c = s.context()
            layers.append([c, {}, li])
            continue
        if r < 0.55:
            n, d = rng.choice(names), rng.randrange(6)
            how = rng.choice(["use", "api", "apimod", "func", "set"])
            mod = sys.modules["dup23_%d" % d]
            over = n in effective(layers, li)
            if how == "use":
                s.execute("use `dup23_%d as %s`" % (d, n))
                own[n] = ("mod", d)
                obs.hit("use")
            elif how == "api":
                s.use(n, "dup23_%d" % d)
                own[n] = ("mod", d)
            elif how == "apimod":
                s.use(n, mod)
                own[n] = ("mod", d)
            elif how == "set":
                s.execute("set @config.imports.%s = 'dup23_%d'" % (n, d))
                own[n] = ("mod", d)
            else:
                s.use(n, mod.f)
                own[n] = ("func", d)
            if over:
                obs.hit("override")
            continue
        if r < 0.65:
            b = rng.choice(sorted(BUILTIN))
            s.use(b, rng.choice([tagged("shadow"), sys.modules["dup23_1"]]))
            text, want = BUILTIN[b]
            q = "select %s z from n23" % text if want in ("sum", "count", "max", "gc", "rn") else "select %s z" % text
            want = {"sum": [3], "count": [2], "max": [2], "gc": ["1,2"], "rn": [1, 2], "ya": [1, 2]}.get(want, [want]) if isinstance(want, str) else [want]
            root = s
            del LOG[:]
            got = eng.attempt(squery, s, q)
            obs.hit("queries")
            obs.hit("builtin_kept")
            if isinstance(got, eng.Raised) or [eng.norm(r.get("z")) for r in got] != [eng.norm(w) for w in want] or LOG:
                obs.fail("names", "a built-in function was shadowed by an import", sql=q, got=got, want=want)
                return
            continue
        eff = effective(layers, li)
        for n in names:
            v = eff.get(n)
            obs.hit("queries")
            obs.hit("own_session")
            if v is None:
                got = eng.attempt(squery, s, "select %s$f(id) z from n23" % n)
                if not isinstance(got, eng.Raised):
                    obs.fail("names", "a name that the session does not import was resolved", name=n, got=got, history=layers_text(layers))
                    return
                continue
            kind, d = v
            shape = rng.choice(["f", "gen", "val", "f"]) if kind == "mod" else "func"
            q = {"f": "select id, %s$f(id, s) z from n23", "gen": "select id, %s$gen(id, s) z from n23", "val": "select id, %s$val() z from n23", "func": "select id, %s(id, s) z from n23"}[shape] % n
            want = []
            for r_ in data:
                if shape == "gen":
                    want += [{"id": r_["id"], "z": y} for y in items("dg%d" % d)(r_["id"], r_["s"])]
                else:
                    want.append({"id": r_["id"], "z": "val%d" % d if shape == "val" else "dup%d%r" % (d, (r_["id"], r_["s"]))})
            got = eng.attempt(squery, s, q)
            if not same(got, want):
                obs.fail("names", "a name was not resolved to the session's own import", sql=q, got=got, want=want, history=layers_text(layers))
                return
            obs.nontrivial(q, want, len(layers))
    if rng.random() < 0.4:
        e = engines[0]
        before = dict(e.executor.session_config.get().get("imports") or {})
        r = eng.attempt(e.execute, "use `no_such_module_23 as zz23`")
        if not isinstance(r, eng.Raised) or "zz23" in (e.executor.session_config.get().get("imports") or {}):
            obs.fail("names", "USE of a missing module", got=r)
        e.execute("use `pk23.part`")
        got = eng.attempt(squery, e, "select Part$f(1, 'x') z")
        if not same(got, [{"z": "part(1, 'x')"}]) or "part" not in (e.executor.session_config.get().get("imports") or {}):
            obs.fail("names", "USE of a submodule takes its last name", got=got, imports=e.executor.session_config.get().get("imports"))


def squery(s, text):
    s.execute("insert into `v23` " + text)
    return s.pop_memory_datas("v23")


def effective(layers, i):
    s, own, parent = layers[i]
    out = dict(effective(layers, parent)) if parent is not None else {}
    out.update(own)
    return out


def layers_text(layers):
    return [(type(s).__name__, dict(o), p) for s, o, p in layers]


KIND_RUN = {"select": select_case, "where": where_case, "order": order_case, "group": group_case, "aggregate": aggregate_case, "window": window_case, "generate": generate_case, "join": join_case, "nest": nest_case, "names": names_case, "const": const_case,
            "identity": identity_case, "transform": transform_case, "state": state_case}
