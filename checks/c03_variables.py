"""C03: variables hold the value last assigned in their scope, however they are assigned and read.

A case is a history over a root session, two child contexts and nested script files. The generator runs the model (a tree of scopes,
each a dict) while it generates, so every step carries the rows and the variable table the real engine must show after it.
"""
import copy, datetime, os, sys
from vlib import eng, harness

META = {
    "id": "C03", "sizes": {"quick": 9000, "thorough": 120000}, "chunk": 40,
    "rule": "a history of assignments over nested scopes was executed and after each step every variable was read from every scope through the host API, and by the statements of the history as @name and ${name}",
    "required": {"steps": 30000, "set_const": 4000, "set_expr": 4000, "into": 2500, "host": 2500, "assign": 1500, "global": 500, "script": 1200, "nested_script": 150, "read": 8000, "subst": 3000,
                 "default": 700, "default_func": 200, "default_set": 200, "shadow": 1500, "ctx": 8000, "object_value": 1500, "list_value": 1500, "host_reads": 200000, "no_rows": 200, "multi_script": 800, "ref_func": 80, "values": 500, "in_list": 400, "table_name": 200, "table_name_runtime": 20},
    "technique": "runtime monitoring: reference model of the scope tree run in lock step with the real sessions; all variables observed in all scopes after every step",
    "note": "Inside one script a variable is assigned at most once (constant SETs take effect when the script is compiled, as the property says); ${name} is used for variables no statement of the running script assigns at run time.",
}

S = ["t", "t", "", "a", "Bc", "x y", "é", "1", "-5", "null", "long text", "it''s", "a;b", "--c", "#d", "/*e*/", "q\"q"]
VARS = ["@a", "@b", "@c", "@d", "@ee"]
UNSET = ["@zz", "@never"]


def lit(rng):
    """(SQL constant text, value)."""
    x = rng.random()
    if x < 0.3:
        v = rng.choice([0, 1, 2, 7, -1, -12, 1000000, 12345678901234567890])
        return str(v), v
    if x < 0.42:
        v = rng.choice([0.5, -1.25, 3.0, 100.125])
        return str(v), v
    if x < 0.52:
        v = rng.choice([True, False, None])
        t = {True: "true", False: "false", None: "null"}[v]
        return rng.choice([t, t.upper()]), v
    s = rng.choice(S)
    if rng.random() < 0.3 and "'" not in s and '"' not in s:
        return '"%s"' % s, s
    return "'%s'" % s, s.replace("''", "'")


def host_value(rng):
    return rng.choice([lambda: rng.randint(-9, 99), lambda: rng.choice([1.5, -0.25]), lambda: rng.choice(["", "h", "w x", "O'K", "l\nm"]), lambda: None, lambda: rng.random() < 0.5,
                       lambda: rng.sample(range(1, 7), rng.randint(1, 4)), lambda: {"x": rng.randint(0, 5), "y": "z"}, lambda: ["a", "c"], lambda: [],
                       lambda: datetime.datetime(2021, 3, rng.randint(1, 28), 4, 5, 6), lambda: datetime.date(2020, 2, rng.randint(1, 28)),
                       lambda: [{"id": 1, "s": "q"}, {"id": 2, "s": None}]])()


class Scope(dict):
    def __init__(self, parent, name):
        super().__init__()
        self.parent, self.name = parent, name

    def lookup(self, k):
        s = self
        while s is not None:
            if k in s:
                return True, s[k]
            s = s.parent
        return False, None

    def val(self, k):
        return self.lookup(k)[1]


def isint(v):
    return isinstance(v, int) and not isinstance(v, bool)


class Gen:
    def __init__(self, rng, i):
        self.rng = rng
        n = rng.randint(1, 5)
        self.t = [{"id": j, "k": rng.randint(0, 3), "s": rng.choice(["a", "b", "c", None, "z"])} for j in range(1, n + 1)]
        self.glob = Scope(None, "global")
        self.root = Scope(self.glob, "root")
        self.ctx = [self.root, Scope(self.root, "c1"), Scope(self.root, "c2")]
        self.gname = "@g%d" % (i % 7)
        self.files = {}
        self.out = 0
        self.hits = {}
        self.single = True

    def hit(self, k, n=1):
        self.hits[k] = self.hits.get(k, 0) + n

    # ---- values
    def note(self, v):
        if isinstance(v, dict) or (isinstance(v, list) and v and isinstance(v[0], dict)):
            self.hit("object_value")
        elif isinstance(v, list):
            self.hit("list_value")

    def store(self, scope, name, v):
        if name not in scope and scope.lookup(name)[0]:
            self.hit("shadow")
        scope[name] = copy.deepcopy(v)
        self.note(v)

    def expr(self, scope, names):
        """(text, value) of an expression that only reads variables of names."""
        rng = self.rng
        v = rng.choice(names)
        x = scope.val(v)
        ids = [r["id"] for r in self.t]
        forms = [lambda: (v, x), lambda: ("(select count(*) from t)", len(self.t)), lambda: ("(select max(id) from t where id >= 1)", max(ids)),
                 lambda: ("(select s from t where id = 1)", self.t[0]["s"]), lambda: ("(select k from t where id = 99)", None),
                 lambda: ("case when %s is null then 'nil' else 'some' end" % v, "nil" if x is None else "some"), lambda: ("json_array(1, 2)", [1, 2]),
                 lambda: ("coalesce(null, 'dflt')", "dflt"), lambda: ("1 + 2 * 3", 7), lambda: ("concat('p', 'q')", "pq"), lambda: ("(1, 2, 3)", [1, 2, 3])]
        forms += [lambda: ("concat('', 't')", "t"), lambda: ("if(1 = 1, 't', 'u')", "t"), lambda: ("substring('xty', 2, 1)", "t")] * 2
        if isint(x) and abs(x) < 10 ** 9:
            forms += [lambda: ("%s + 1" % v, x + 1), lambda: ("%s * 2" % v, x * 2), lambda: ("(%s + 1) * 3" % v, (x + 1) * 3), lambda: ("- %s" % v, -x), lambda: ("-%s" % v, -x),
                      lambda: ("concat('x', %s)" % v, "x%d" % x), lambda: ("if(%s > 5, 'big', 'small')" % v, "big" if x > 5 else "small"), lambda: ("abs(%s)" % v, abs(x)), lambda: ("1 - (-%s)" % v, 1 + x),
                      lambda: ("case when %s = 7 then 'seven' else %s end" % (v, v), "seven" if x == 7 else x), lambda: ("(select count(*) from t where id <= %s)" % v, sum(1 for d in ids if d <= x) or None)] * 2
        elif isinstance(x, str):
            forms += [lambda: ("concat(%s, '!')" % v, x + "!"), lambda: ("length(%s)" % v, len(x.encode())), lambda: ("upper(%s)" % v, x.upper()), lambda: ("concat(%s, %s)" % (v, v), x + x)] * 2
        elif x is None:
            forms += [lambda: ("%s + 1" % v, None), lambda: ("concat('x', %s)" % v, None), lambda: ("ifnull(%s, 4)" % v, 4)]
        elif isinstance(x, dict) and "x" in x:
            def ref():
                self.hit("ref_func")
                y = dict(x)
                y["x"] = 77
                return "json_set(%s, '$.x', 77)" % v, y
            forms += [ref] * 4
        elif isinstance(x, list) and x and isint(x[0]):
            def ref2():
                self.hit("ref_func")
                return "json_array_append(%s, '$', 9)" % v, list(x) + [9]
            forms += [ref2] * 4
        return rng.choice(forms)()

    def into(self, scope, names):
        """(query text up to INTO, text after, value)."""
        rng = self.rng
        n = len(self.t)
        c = rng.choice([0, 1, 1, 2, n, 99])
        sel = [r for r in self.t if r["id"] <= c]
        cols = rng.choice([["id"], ["s"], ["id", "s"], ["k", "id"], ["id"], ["cnt"], ["k2"], ["const"]])
        if cols == ["cnt"]:
            return "select count(*) as n", " from t", n
        if cols == ["const"]:
            text, v = lit(rng)
            return "select %s as v" % text, "", v
        if cols == ["k2"]:
            v = rng.choice(names)
            x = scope.val(v)
            if isint(x) and abs(x) < 10 ** 9:
                vals = [r["id"] + x for r in sel]
                return "select id + %s as k2" % v, " from t where id <= %d" % c, self.shape(vals)
            cols = ["id", "k"]
        rows = [{k: r[k] for k in cols} for r in sel]
        if not rows:
            self.hit("no_rows")
        return "select " + ", ".join(cols), " from t where id <= %d" % c, self.shape([r[cols[0]] for r in rows] if len(cols) == 1 else rows)

    @staticmethod
    def shape(vals):
        return vals[0] if len(vals) == 1 else vals

    def assign(self, scope, name):
        """Row by row assignment: (columns text, rows) and the final value."""
        rng = self.rng
        x = scope.val(name)
        form = rng.choice(["id", "if", "coalesce"] + (["add", "add", "add", "when"] if isint(x) and abs(x) < 10 ** 9 else ["concat"] if isinstance(x, str) else []))
        rows, cur = [], x
        for r in self.t:
            if form == "id":
                cur = r["id"]
            elif form == "add":
                cur = cur + r["id"]
            elif form == "when":
                cur = cur + 1 if r["k"] > 1 else cur
            elif form == "concat":
                cur = cur + str(r["id"])
            elif form == "if":
                cur = r["id"] if r["id"] > 1 else 5
            else:
                cur = (cur if isint(cur) else 0) + 1 if cur is None or isint(cur) else None
                if cur is None:
                    return None
            rows.append({"id": r["id"], "r": cur, "z": cur})
        e = {"id": "id", "add": "{0} + id", "when": "if(k > 1, {0} + 1, {0})", "concat": "concat({0}, id)", "if": "if(id > 1, id, 5)", "coalesce": "coalesce({0}, 0) + 1"}[form].format(name)
        return "id, %s := %s as r, %s as z" % (name, e, name), rows, cur

    # ---- substitution text
    def subst_value(self, v):
        """Text and value a bare ${v} reads as, or None when the value has no literal form."""
        if v is None or isinstance(v, bool) or isint(v) or isinstance(v, float):
            return True
        return False

    def fmt(self, v):
        if v is True:
            return "true"
        if v is False:
            return "false"
        if v is None:
            return "null"
        if isinstance(v, datetime.datetime):
            return v.strftime("%Y-%m-%d %H:%M:%S")
        if isinstance(v, datetime.date):
            return v.strftime("%Y-%m-%d")
        return str(v)

    def quotable(self, v):
        if isinstance(v, (list, dict)):
            return False
        return not set(self.fmt(v)) & set("'\\\"\n;#/-") or isinstance(v, (int, float, datetime.date))

    def read(self, scope, runtime):
        """(select text, rows) that reads variables; runtime: names assigned at run time earlier in the same script."""
        rng = self.rng
        names = VARS + [self.gname]
        cols, row = [], {}
        one = rng.random() < (0.2 if any(scope.val(v) == "t" for v in runtime) else 0.6)
        for j in range(rng.randint(1, 4)):
            c = "r%d" % j
            v = rng.choice(names + ([rng.choice(UNSET)] if rng.random() < 0.3 else []))
            ok, x = scope.lookup(v)
            y = rng.random()
            if y < 0.4 or v in runtime:
                cols.append("%s as %s" % (v, c))
                row[c] = x
                self.hit("read")
            elif y < 0.55:
                text, row[c] = self.expr(scope, names)
                cols.append("%s as %s" % (text, c))
                self.hit("read")
            elif y < 0.75 and ok:
                if self.subst_value(x) and rng.random() < 0.6:
                    d = ":" + rng.choice(["8", "abs(-9)", "zz"]) if rng.random() < 0.3 else ""
                    cols.append("${%s%s} as %s" % (v, d, c))
                    row[c] = x
                elif self.quotable(x):
                    d = ":" + rng.choice(["8", "abs(-9)", "zz", ""]) if rng.random() < 0.3 else ""
                    cols.append("'<${%s%s}>' as %s" % (v, d, c))
                    row[c] = "<" + self.fmt(x) + ">"
                else:
                    cols.append("%s as %s" % (v, c))
                    row[c] = x
                    d = ""
                if d:
                    self.hit("default_set")
                self.hit("subst")
            elif y < 0.95:
                u = rng.choice(UNSET) if ok else v
                d, val, func = rng.choice([("7", 7, 0), ("-3", -3, 0), ("1.5", 1.5, 0), ("null", None, 0), ("'dd'", "dd", 0), ("abs(-5)", 5, 1), ("add(1,2)", 3, 1), ("true", True, 0),
                                           ("'x:y'", "x:y", 0), ("mul(3,4)", 12, 1), ("%s" % "@never", None, 0)])
                if func and rng.random() < 0.5:
                    cols.append("'${%s:%s}' as %s" % (u, d, c))
                    row[c] = str(val)
                else:
                    cols.append("${%s:%s} as %s" % (u, d, c))
                    row[c] = val
                self.hit("default_func" if func else "default")
            else:
                e, val = rng.choice([("'${home}'", os.path.expanduser("~")), ("'${HOME}'", os.path.expanduser("~")), ("'${platform}'", sys.platform), ("'${zz}'", ""), ("'${zz:}'", ""), ("'${nope:abc def}'", "abc def")])
                cols.append("%s as %s" % (e, c))
                row[c] = val
                self.hit("default")
        if one:
            if rng.random() < 0.25:
                vals, vrow = [], {}
                for j in range(rng.randint(1, 3)):
                    if rng.random() < 0.7:
                        v = rng.choice(names)
                        vals.append(v)
                        vrow["v%d" % j] = scope.val(v)
                    else:
                        text, vrow["v%d" % j] = lit(rng)
                        vals.append(text)
                self.hit("values")
                return "(%s) values (%s)" % (", ".join(vrow), ", ".join(vals)), [vrow]
            return "select " + ", ".join(cols), [row]
        rows = self.t
        where = ""
        lists = [v for v in names if v not in runtime and isinstance(scope.val(v), list) and scope.val(v) and all(isint(q) for q in scope.val(v))]
        ints = [v for v in names if isint(scope.val(v)) and abs(scope.val(v)) < 10 ** 9]
        src = "t"
        tabs = [v for v in names if scope.val(v) == "t" and not (v == self.gname and v in runtime)]
        if tabs and rng.random() < 0.8:
            src = rng.choice(tabs)
            self.hit("table_name")
            self.hit("table_name_runtime", src in runtime)
            if rng.random() < 0.3:
                src = rng.choice(["(select id from %s) z", "(select id from %s where id > 0) z"]) % src
        if ints and rng.random() < 0.25:
            v, k = rng.choice(ints), rng.randint(1, 5)
            neg = rng.random() < 0.3
            items = rng.choice([[v, str(k)], [str(k), v], [v, v]])
            where = " where id %sin (%s)" % ("not " if neg else "", ", ".join(items))
            ks = {scope.val(v)} | ({k} if str(k) in items else set())
            rows = [r for r in rows if (r["id"] in ks) != neg]
            self.hit("in_list")
        elif lists and rng.random() < 0.7:
            v = rng.choice(lists)
            where = " where id in ${%s}" % v
            rows = [r for r in rows if r["id"] in scope.val(v)]
        elif ints and rng.random() < 0.7:
            v = rng.choice(ints)
            op = rng.choice(["=", "<", ">="])
            ref = "${%s}" % v if v not in runtime and rng.random() < 0.4 else v
            where = " where id %s %s" % (op, ref)
            rows = [r for r in rows if (r["id"] == scope.val(v) if op == "=" else r["id"] < scope.val(v) if op == "<" else r["id"] >= scope.val(v))]
        if tabs and src in tabs and rng.random() < 0.2:
            other = rng.choice(tabs + ["t"])
            self.hit("table_name_two", src in runtime and other in runtime)
            third = ""
            if rng.random() < 0.5:
                x = rng.choice(tabs)
                third = " %s join %s r on p.id = r.id" % (rng.choice(["inner", "inner", "left"]), x)
                self.hit("table_name_three", sum(y in runtime for y in (src, other, x)) > 1)
            return "select p.id as id, %s from %s p %s join %s q on p.id = q.id%s%s" % (", ".join(cols), src, rng.choice(["inner", "left"]), other, third, where.replace(" where id", " where p.id")), [dict(row, id=r["id"]) for r in rows]
        return "select id, " + ", ".join(cols) + " from " + src + where, [dict(row, id=r["id"]) for r in rows]

    # ---- statements
    def statement(self, scope, used, runtime, depth, expect):
        """One SQL statement executed in scope. used: names the running script already assigned (each at most once)."""
        rng = self.rng
        free = [v for v in VARS if v not in used]
        x = rng.random()
        if x < 0.36 or not free:
            text, rows = self.read(scope, runtime)
            self.out += 1
            o = "o%d" % self.out
            expect[o] = rows
            return "insert into %s %s" % (o, text)
        name = rng.choice(free)
        names = [v for v in VARS + [self.gname]]
        if x < 0.48:
            if used is not None and not self.single:
                return None
            text, v = lit(rng)
            self.hit("set_const")
            self.store(scope, name, v)
            used.add(name)
            return "%s %s%s%s" % (rng.choice(["set", "SET", "Set"]), name, rng.choice(["=", " = ", " ="]), text)
        if x < 0.66:
            text, v = self.expr(scope, names)
            self.hit("set_expr")
            self.store(scope, name, v)
            used.add(name)
            runtime.add(name)
            return "set %s%s%s" % (name, rng.choice(["=", " = "]), text)
        if x < 0.8:
            a, b, v = self.into(scope, names)
            self.hit("into")
            self.store(scope, name, v)
            used.add(name)
            runtime.add(name)
            return "%s into %s%s" % (a, name, b)
        if x < 0.9:
            r = self.assign(scope, name)
            if r is None:
                return None
            cols, rows, v = r
            self.hit("assign")
            self.store(scope, name, v)
            used.add(name)
            runtime.add(name)
            self.out += 1
            expect["o%d" % self.out] = rows
            return "insert into o%d select %s from t" % (self.out, cols)
        if x < 0.93 and self.gname not in used and self.gname not in runtime:
            used.add(self.gname)
            self.hit("global")
            if self.single and rng.random() < 0.6:
                text, v = lit(rng)
            else:
                text, v = self.expr(scope, names)
                runtime.add(self.gname)
            self.glob[self.gname] = copy.deepcopy(v)
            return "%s %s = %s" % (rng.choice(["set global", "SET GLOBAL"]), self.gname, text)
        if depth < 3:
            return self.nested(scope, runtime, depth, expect)
        return None

    def body(self, scope, runtime, depth, expect, n):
        """Statements of one script: constant SETs first, every variable assigned at most once."""
        rng = self.rng
        used, out = set(), []
        for _ in range(rng.choice([0, 0, 1, 2])):
            name = rng.choice(VARS)
            if name in used:
                continue
            used.add(name)
            text, v = lit(rng)
            self.hit("set_const")
            self.store(scope, name, v)
            out.append("set %s = %s" % (name, text))
        rt = set(runtime) - used
        self.single, save = False, self.single
        for _ in range(n):
            s = self.statement(scope, used, rt, depth, expect)
            if s:
                out.append(s)
        self.single = save
        runtime |= rt & {self.gname}
        return out

    def nested(self, scope, runtime, depth, expect):
        self.hit("script")
        if depth > 1:
            self.hit("nested_script")
        child = Scope(scope, "script")
        stmts = self.body(child, runtime, depth + 1, expect, self.rng.randint(1, 4))
        f = "s%d.%s" % (len(self.files), self.rng.choice(["sql", "sqlx"]))
        self.files[f] = ";\n".join(stmts) + self.rng.choice([";", "", ";\n"])
        return "execute `{DIR}/%s`" % f

    def table(self):
        """What every scope must show after a step."""
        return [{k: (copy.deepcopy(s.lookup(k)[1]) if s.lookup(k)[0] else "<unset>") for k in VARS + [self.gname] + UNSET} for s in self.ctx]

    def history(self):
        rng = self.rng
        steps = []
        for _ in range(rng.randint(4, 10)):
            c = rng.choice([0, 0, 1, 2])
            scope = self.ctx[c]
            if c:
                self.hit("ctx")
            expect = {}
            x = rng.random()
            if x < 0.15:
                name, v = rng.choice(VARS), host_value(rng)
                self.hit("host")
                step = {"c": c, "host": (rng.choice([name, name[1:]]), v)}
                self.store(scope, name, v)
            elif x < 0.3:
                self.hit("multi_script")
                step = {"c": c, "sql": ";\n".join(self.body(scope, set(), 1, expect, rng.randint(2, 4)) or ["select 1 as a"])}
            else:
                self.single = True
                s = None
                while s is None:
                    s = self.statement(scope, set(), set(), 1, expect)
                step = {"c": c, "sql": s}
            step["expect"] = expect
            step["after"] = self.table()
            steps.append(step)
        return steps


def make(rng, i, tier):
    g = Gen(rng, i)
    steps = g.history()
    return {"t": g.t, "steps": steps, "files": g.files, "hits": g.hits, "g": g.gname}


def show(v):
    return eng.norm(v)


def run(case, obs):
    d = os.path.join(harness.scratch(), "c03")
    os.makedirs(d, exist_ok=True)
    for f, text in case["files"].items():
        with open(os.path.join(d, f), "w", encoding="utf-8") as fp:
            fp.write(text.replace("{DIR}", d))
    for k, n in case["hits"].items():
        obs.hit(k, n)
    from syncanysql.executor import Executor
    try:
        e = eng.engine({"t": case["t"]})
        scopes = [e, e.context(), e.context()]
        e.get_variable("x")
        for n, st in enumerate(case["steps"]):
            obs.hit("steps")
            s = scopes[st["c"]]
            if "host" in st:
                s.set_variable(*copy.deepcopy(st["host"]))
            else:
                r = eng.attempt(s.execute, st["sql"].replace("{DIR}", d))
                if isinstance(r, eng.Raised):
                    obs.fail("raised", "step %d raised %r" % (n, r), step=st, files=case["files"], case=case)
                    return
            for o, rows in st["expect"].items():
                got = e.pop_memory_datas(o)
                if not eng.same_rows(got, rows, True):
                    obs.fail("read", "step %d: a statement reading variables returned other rows" % n, got=got, want=rows, step=st, files=case["files"], case=case)
                    return
            for c, table in enumerate(st["after"]):
                for k, want in table.items():
                    got = scopes[c].get_variable(k if (n + c) % 2 else k[1:], "<unset>")
                    obs.hit("host_reads")
                    if show(got) != show(want):
                        obs.fail("value", "after step %d, %s read in scope %d is %r, not %r" % (n, k, c, got, want), step=st, files=case["files"], case=case)
                        return
        obs.nontrivial(case["steps"])
        obs.sample([st.get("sql", st.get("host")) for st in case["steps"]])
    finally:
        Executor.global_env_variables.pop(case["g"], None)
        for f in case["files"]:
            os.unlink(os.path.join(d, f))
