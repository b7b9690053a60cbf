"""C15: engines, contexts and threads used side by side do not interfere.

History cases interleave statements of several engines and contexts on one thread (also from inside user functions of running queries)
and compare every answer and the whole variable state with a model of scope trees. Thread cases run one program per thread under a
token scheduler that preempts at lines of the code under test (or free running with a tiny switch interval); every program has
its own model-computed answers and shared tables are counted at the end.
"""
import datetime, json, os, random, sys, threading, time
from vlib import eng

META = {
    "id": "C15", "sizes": {"quick": 3600, "thorough": 40000}, "chunk": 12,
    "rule": "statements of several engines, contexts, nested calls and threads were interleaved; after each, the answer, the variables of every scope, the current context and the rows of the shared tables were compared with a model that keeps the scopes apart",
    "required": {"history": 1500, "threads": 150, "ops": 30000, "nested_calls": 1500, "nested_same_context": 150, "nested_batched": 300, "host_reads": 200000, "unknown_function": 500, "with": 800, "config_set": 500, "file": 500, "limit": 300,
                 "script": 1500, "closed": 300, "default_engine": 300, "switches": 10000, "thread_statements": 3000, "free_running": 60, "traced": 60, "shared_rows": 6000, "lazy_setup": 25, "shared_engine": 40, "nested_failed": 100, "same_config": 200},
    "technique": "runtime monitoring: model of scope trees in lock step with interleaved sessions; threads under a token scheduler preempting at lines of the real code, answers and shared-table conservation checked",
    "note": "Variables of a parent are not changed while threads read them; process-wide settings (set global) belong to C03. Concurrent writers insert only (mode I).",
}

VARS = ["@a", "@b", "@c"]
FUNCS = ["fa", "fb", "fc"]
DT = datetime.date(2021, 3, 4)
FORMATS = ["%Y-%m-%d", "%d/%m/%Y", "%m.%d", "%y%m%d"]
SRC = {"mem": "t", "json": "`t15.json`", "csv": "`t15.csv`"}
NT = 5


def init_worker(scratch):
    json.dump([{"id": i} for i in range(NT)], open("t15.json", "w"))
    open("bad15.json", "w").write("[{")
    open("t15.csv", "w").write("id\n" + "".join("%d\n" % i for i in range(NT)))


class Scope:
    def __init__(self, parent):
        self.parent, self.vars, self.funcs, self.fmt, self.limit = parent, {}, {}, None, None

    def get(self, attr, key=None):
        s = self
        while s is not None:
            v = getattr(s, attr)
            if key is None:
                if v is not None:
                    return v
            elif key in v:
                return v[key]
            s = s.parent
        return None


class Gen:
    """Generates operations and runs the model. Sessions are named; engine k has root session "e<k>" and contexts "e<k>.<j>"."""

    def __init__(self, rng):
        self.rng, self.scopes, self.shared, self.out, self.stack, self.nfile, self.files, self.depth, self.hits = rng, {}, {}, 0, [], 0, {}, 0, {}
        self.reserved = set()

    def hit(self, k, n=1):
        self.hits[k] = self.hits.get(k, 0) + n

    def add_engine(self, k, contexts):
        root = "e%d" % k
        self.scopes[root] = Scope(None)
        self.scopes[root].vars["@dt"] = DT
        self.shared[root] = []
        for j in range(contexts):
            self.scopes["%s.%d" % (root, j)] = Scope(self.scopes[root])

    @staticmethod
    def engine_of(s):
        return s.split(".")[0]

    def value(self):
        rng = self.rng
        return rng.choice([lambda: rng.randint(0, 99), lambda: "s%d" % rng.randint(0, 9), lambda: "x y"])()

    def lit(self, v):
        return str(v) if isinstance(v, int) else "'%s'" % v

    def newout(self):
        self.out += 1
        return "o%d" % self.out

    def visible(self, sc):
        return [f for f in FUNCS if sc.get("funcs", f) is not None]

    # ---- statements: (sql, out, rows)
    def select(self, s, no=()):
        rng, sc = self.rng, self.scopes[s]
        cols, row, per = [], {}, []
        for v in VARS:
            if v in no or rng.random() < 0.3:
                continue
            x = sc.get("vars", v)
            if x is not None and rng.random() < 0.4:
                cols.append("'<${%s}>' as %s" % (v, v[1:]))
                row[v[1:]] = "<%s>" % x
            else:
                cols.append("%s as %s" % (v, v[1:]))
                row[v[1:]] = x
        if rng.random() < 0.3:
            cols.append("'${@dt}' as d")
            row["d"] = DT.strftime(sc.get("fmt") or "%Y-%m-%d")
        f = rng.choice(self.visible(sc)) if self.visible(sc) and rng.random() < 0.6 else None
        form = rng.random()
        o = self.newout()
        if form < 0.2 and cols:
            if f:
                cols.append("%s(7) as f" % f)
                row["f"] = 700 + sc.get("funcs", f)
            return "insert into %s select %s" % (o, ", ".join(cols)), o, [row]
        if form < 0.35:
            k = rng.randint(1, 3)
            return "insert into %s select id %% %d as g, count(*) as n, sum(id) as s from t group by id %% %d" % (o, k, k), o, \
                [{"g": g, "n": len([i for i in range(NT) if i % k == g]), "s": sum(i for i in range(NT) if i % k == g)} for g in range(k)] if not sc.get("limit") else None
        if form < 0.45 and not sc.get("limit"):
            k = rng.randint(0, 3)
            return "insert into %s select x.id as id, y.n as n from t x inner join (select id, count(*) as n from t where id >= %d group by id) y on x.id = y.id" % (o, k), o, [{"id": i, "n": 1} for i in range(k, NT)]
        if form < 0.52 and not sc.get("limit"):
            k = rng.randint(0, 3)
            return "insert into %s select id, row_number() over (order by id desc) as r, (select max(id) from t) as m from t where id >= %d" % (o, k), o, [{"id": i, "r": NT - i, "m": NT - 1} for i in range(k, NT)]
        if form < 0.58 and not sc.get("limit"):
            return "insert into %s select id from t where id < 2 union all select id from t where id > 2" % o, o, [{"id": i} for i in range(NT) if i != 2]
        if f:
            cols.append("%s(id) as f" % f)
            tag = sc.get("funcs", f)
        rows = [dict(row, id=i, **({"f": i * 100 + tag} if f else {})) for i in range(NT)]
        where = ""
        if rng.random() < 0.4:
            k = rng.randint(0, NT - 1)
            where = " where id >= %d" % k
            rows = rows[k:]
        if sc.get("limit"):
            rows = rows[:sc.get("limit")]
            self.hit("limit")
        return "insert into %s select %s from t%s" % (o, ", ".join(["id"] + cols), where), o, rows

    def op_select(self, s):
        sql, o, rows = self.select(s)
        if rows is None:
            return None
        return {"op": "sql", "s": s, "sql": sql, "expect": {o: rows}}

    def op_script(self, s):
        """Several statements of one call, each with its own answer."""
        parts, expect = [], {}
        for _ in range(self.rng.randint(2, 4)):
            if self.rng.random() < 0.35:
                p = self.op_insert(s)
                if p is None:
                    continue
                parts.append(p["sql"])
                continue
            sql, o, rows = self.select(s)
            if rows is not None:
                parts.append(sql)
                expect[o] = rows
        self.hit("script")
        return {"op": "sql", "s": s, "sql": ";\n".join(parts), "expect": expect} if parts else None

    def op_insert(self, s):
        rng, sc, root = self.rng, self.scopes[s], self.engine_of(s)
        if sc.get("limit"):
            return None
        k, n = rng.randint(0, 10 ** 6), rng.randint(0, 2)
        if n == 0:
            rows = [{"w": s, "k": k}]
            sql = "insert into sh select '%s' as w, %d as k" % (s, k)
        elif n == 1:
            rows = [{"w": s, "k": k}, {"w": s, "k": k + 1}]
            sql = "insert into sh (w, k) values ('%s', %d), ('%s', %d)" % (s, k, s, k + 1)
        else:
            rows = [{"w": s, "k": k + i} for i in range(NT)]
            sql = "insert into sh select '%s' as w, id + %d as k from t" % (s, k)
        self.shared[root] += rows
        return {"op": "sql", "s": s, "sql": sql, "expect": {}}

    def op_push(self, s):
        k = self.rng.randint(0, 10 ** 6)
        self.shared[self.engine_of(s)].append({"w": s, "k": k})
        return {"op": "push", "s": s, "rows": [{"w": s, "k": k}]}

    def op_set(self, s, avoid=()):
        rng, sc = self.rng, self.scopes[s]
        names = [v for v in VARS if v not in avoid]
        if not names:
            return None
        v = rng.choice(names)
        how = rng.choice(["api", "sql", "sql", "into", "expr"])
        x = self.value()
        sql = None
        if how == "sql":
            sql = "set %s = %s" % (v, self.lit(x))
        elif how == "expr":
            x = rng.randint(0, NT - 1)
            sql = "set %s = (select max(id) from t where id <= %d)" % (v, x)
        elif how == "into":
            sql = "select %s as x into %s" % (self.lit(x), v)
        if how in ("expr", "into") and sc.get("limit"):
            return None
        sc.vars[v] = x
        return {"op": "set", "s": s, "name": v, "value": x, "sql": sql}

    def op_use(self, s):
        f, tag = self.rng.choice(FUNCS), self.rng.randint(1, 99)
        self.scopes[s].funcs[f] = tag
        return {"op": "use", "s": s, "name": f, "tag": tag}

    def op_unknown(self, s):
        miss = [f for f in FUNCS if self.scopes[s].get("funcs", f) is None]
        if not miss:
            return None
        return {"op": "unknown", "s": s, "sql": "insert into never select %s(id) as x from t" % self.rng.choice(miss)}

    def op_config(self, s):
        f = self.rng.choice(FORMATS)
        self.scopes[s].fmt = f
        self.hit("config_set")
        return {"op": "sql", "s": s, "sql": "set @config.date_format = '%s'" % f, "expect": {}}

    def op_limit(self, s):
        n = self.rng.choice([0, 1, 2, 3])
        if self.scopes[s].limit is None and not n:
            n = 2
        self.scopes[s].limit = n
        return {"op": "set", "s": s, "name": "@limit", "value": n, "sql": "set @limit = %d" % n if self.rng.random() < 0.5 else None}

    def op_file(self, s):
        """A script file runs in a child session of its own."""
        rng = self.rng
        self.nfile += 1
        name = "f%d.sql" % self.nfile
        child = "%s/%d" % (s, self.nfile)
        self.scopes[child] = Scope(self.scopes[s])
        parts, expect = [], {}
        if rng.random() < 0.7:
            v, x = rng.choice(VARS), self.value()
            parts.append("set %s = %s" % (v, self.lit(x)))
            self.scopes[child].vars[v] = x
        if rng.random() < 0.3:
            f = rng.choice(FORMATS)
            parts.append("set @config.date_format = '%s'" % f)
            self.scopes[child].fmt = f
        for _ in range(rng.randint(1, 2)):
            sql, o, rows = self.select(child)
            if rows is not None:
                parts.append(sql)
                expect[o] = rows
        del self.scopes[child]
        self.files[name] = ";\n".join(parts) + ";"
        self.hit("file")
        sql = "execute `%s`" % name
        if rng.random() < 0.6:
            q, o, rows = self.select(s)
            if rows is not None:
                sql += ";\n" + q
                expect[o] = rows
        return {"op": "sql", "s": s, "sql": sql, "expect": expect}

    def op_nest(self, s):
        """A user function of a running query executes statements in (other) sessions."""
        rng, sc = self.rng, self.scopes[s]
        if self.depth >= 2 or sc.get("limit"):
            return None
        src = rng.choice(["mem", "json", "csv", "json"])
        fn = "nest%d" % self.depth
        plan, col = {}, {}
        read = VARS[self.depth] if rng.random() < 0.8 else None
        self.depth += 1
        added = {read} - self.reserved
        self.reserved |= added
        x = sc.get("vars", read) if read else None
        lo = rng.randint(0, 2)
        calls = [i for i in range(NT) if i >= lo]
        for i in calls:
            ops = []
            if rng.random() < 0.7:
                for _ in range(rng.randint(1, 2)):
                    t = rng.choice([s] + list(self.sessions()))
                    op = rng.choice([self.op_select, self.op_select, self.op_insert, self.op_push, self.op_script, lambda t: self.op_set(t, self.reserved), self.op_file, self.op_nest, self.op_fail])(t)
                    if op:
                        ops.append(op)
                        self.hit("nested_calls")
                        if t == s:
                            self.hit("nested_same_context")
                        if op["op"] == "fail":
                            self.hit("nested_failed")
            plan[i] = ops
            col[i] = rng.randint(0, 1000)
        self.depth -= 1
        self.reserved -= added
        o = self.newout()
        batch = rng.choice([0, 0, 2, 3]) if src != "mem" else 0
        if batch:
            self.hit("nested_batched")
        cols = ["%s(id) as r" % fn] + (["%s as v" % read] if read else [])
        rows = [dict({"r": col[i]}, **({"v": x} if read else {})) for i in calls]
        own = self.visible(sc)
        if own and src != "csv" and rng.random() < 0.6:
            f = rng.choice(own)
            cols.append("%s(id) as f" % f)
            for r, i in zip(rows, calls):
                r["f"] = i * 100 + sc.get("funcs", f)
        sql = "insert into %s select %s from %s%s" % (o, ", ".join(cols), SRC[src], " where id >= %s" % (lo if src != "csv" else "'%d'" % lo) if lo or rng.random() < 0.5 else "")
        expect = {o: rows}
        if rng.random() < 0.5:      # more statements of the same call follow
            q, o2, r2 = self.select(s)
            if r2 is not None:
                # the nested operations may have set variables that a literal ${} reads before: values at compile time differ
                if "${" not in q and not any(self.sets(op) for ops in plan.values() for op in ops):
                    sql += ";\n" + q
                    expect[o2] = r2
        return {"op": "nest", "s": s, "fn": fn, "plan": plan, "col": col, "batch": batch, "sql": sql, "expect": expect}

    def sets(self, op):
        return op["op"] == "set" or any(self.sets(o) for ops in op.get("plan", {}).values() for o in ops)

    def op_fail(self, s):
        root = self.engine_of(s)
        k = self.rng.randint(0, 10 ** 6)
        if self.scopes[s].get("limit"):
            return None
        kind = self.rng.choice(["selec bogus", "select nofn(1) as x", "insert into never select id from `bad15.json`"])
        if kind.startswith("insert"):       # fails while running: what comes before it is done
            self.shared[root].append({"w": "f", "k": k})
        return {"op": "fail", "s": s, "sql": "insert into sh select 'f' as w, %d as k; %s; insert into sh select 'f' as w, -1 as k" % (k, kind)}

    def op_with(self, s):
        if "." not in s:
            return None
        if self.stack and (self.rng.random() < 0.5 or len(self.stack) > 2):
            self.stack.pop()
            return {"op": "exit"}
        self.stack.append(s)
        self.hit("with")
        return {"op": "enter", "s": s}

    def op_new(self, s):
        root = self.engine_of(s)
        n = "%s.%d" % (root, 10 + len(self.scopes))
        self.scopes[n] = Scope(self.scopes[root])
        return {"op": "new", "s": n}

    def op_close(self, s):
        root = self.engine_of(s)
        if len(self.shared) < 2 or self.stack:
            return None
        for k in [k for k in self.scopes if self.engine_of(k) == root]:
            del self.scopes[k]
        final = self.shared.pop(root)
        self.add_engine(int(root[1:]), self.rng.randint(0, 2))
        self.hit("closed")
        return {"op": "close", "s": root, "shared": final, "sessions": [k for k in self.scopes if self.engine_of(k) == root]}

    def sessions(self):
        return [s for s in self.scopes if "/" not in s]

    def model(self):
        return {s: {v: sc.get("vars", v) for v in VARS} for s, sc in self.scopes.items() if "/" not in s}


OPS = ["op_select"] * 6 + ["op_script"] * 3 + ["op_insert"] * 2 + ["op_push", "op_set", "op_set", "op_set", "op_use", "op_use", "op_unknown", "op_config", "op_limit", "op_file", "op_nest", "op_nest", "op_nest", "op_with", "op_with", "op_new", "op_close", "op_fail"]


def make(rng, i, tier):
    if i % 8 == 0:
        return make_threads(rng, i)
    g = Gen(rng)
    n = rng.choice([1, 2, 2, 3])
    for k in range(n):
        g.add_engine(k, rng.randint(1, 3))
    case = {"kind": "history", "engines": list(g.shared), "sessions": g.sessions(), "default": n > 1 and rng.random() < 0.3, "config": rng.random() < 0.4, "ops": []}
    for _ in range(rng.randint(6, 16)):
        op = getattr(g, rng.choice(OPS))(rng.choice(g.sessions()))
        if op:
            op["state"] = g.model()
            op["stack"] = list(g.stack)
            case["ops"].append(op)
    case["shared"], case["files"], case["hits"] = g.shared, g.files, g.hits
    return case


def make_threads(rng, i):
    g = Gen(rng)
    n = rng.choice([1, 1, 2])
    for k in range(n):
        g.add_engine(k, 0)
    roots = list(g.shared)
    setup = []
    lazy = rng.random() < 0.3
    if not lazy:
        for r in roots:
            for _ in range(rng.randint(0, 3)):
                setup.append(getattr(g, rng.choice(["op_set", "op_use", "op_use", "op_config", "op_insert"]))(r))
    progs, nth = [], rng.randint(2, 4)
    for t in range(nth):
        root = rng.choice(roots)
        x = rng.random()
        if x < 0.8 or (not lazy and x < 0.85):
            s = "%s.%d" % (root, t)
            g.scopes[s] = Scope(g.scopes[root])
            kinds = ["op_select"] * 4 + ["op_script"] * 3 + ["op_insert"] * 3 + ["op_push", "op_set", "op_set", "op_use", "op_unknown", "op_config", "op_limit", "op_file", "op_nest1", "op_fail"]
        else:
            s = root        # threads that share the engine itself only query and insert
            kinds = ["op_select"] * 4 + ["op_script"] * 3 + ["op_insert"] * 3 + ["op_push", "op_fail", "op_unknown"]
            g.hit("shared_engine")
        ops = []
        for _ in range(rng.randint(2, 6)):
            k = rng.choice(kinds)
            if k == "op_nest1":
                hold, g.sessions = g.sessions, lambda: [s]
                op = g.op_nest(s)
                del g.sessions
            else:
                op = getattr(g, k)(s)
            if op:
                ops.append(op)
        progs.append((s, ops))
    mode = rng.choice(["free", "free", "traced", "traced", "token"])
    return {"kind": "threads", "engines": roots, "setup": [o for o in setup if o], "progs": progs, "shared": g.shared, "files": g.files, "hits": g.hits, "lazy": lazy, "mode": mode, "p": rng.choice([0.001, 0.004, 0.02]),
            "seed": rng.random(), "state": {s: {v: sc.get("vars", v) for v in VARS} for s, sc in g.scopes.items()}}


# ---------------------------------------------------------------- driver
class Default:
    """The module-level functions of the default engine, with the interface of an engine."""

    def __init__(self):
        import syncanysql
        self.m = syncanysql
        syncanysql.close()

    def setup(self):
        self.m.instance().setup()

    def context(self):
        return self.m.instance().context()

    def __getattr__(self, k):
        return getattr(self.m, k)


class Driver:
    def __init__(self, case, obs):
        self.case, self.obs, self.handles, self.wm, self.log = case, obs, {}, [], []
        self.bad = False
        self.on_call = None

    def fail(self, kind, msg, **kw):
        if not self.bad:
            self.bad = True
            self.obs.fail(kind, msg, log=self.log[-40:], **kw)

    def open(self, root, sessions, default=False, config=None, lazy=False):
        from syncanysql import ScriptEngine
        e = Default() if default else ScriptEngine(config)
        if not lazy:
            e.setup()
        self.handles[root] = e
        if not lazy:
            self.fill(root)
        for s in sessions:
            if "." in s and self.case["kind"] == "history":
                self.handles[s] = e.context()

    def fill(self, root):
        e = self.handles[root]
        e.push_memory_datas("t", [{"id": i} for i in range(NT)])
        e.set_variable("dt", DT)
        if self.case["kind"] == "threads":      # two first inserts at once race inside the external memory driver
            e.push_memory_datas("sh", [{"w": "first", "k": 0}])

    def root(self, s):
        return self.handles[s.split(".")[0]]

    def rows(self, root, want, what):
        got = self.handles[root].get_memory_datas("sh")
        key = lambda r: (r["w"], r["k"])
        if sorted(map(key, got)) != sorted(map(key, want)):
            self.fail("shared", "%s: the shared table does not hold exactly the rows inserted" % what, got=got[:60], want=want[:60])
        self.obs.hit("shared_rows", len(got))

    def step(self, op):
        o, kind, s = self.obs, op["op"], op.get("s")
        self.log.append("%s %s %s" % (s, kind, (op.get("sql") or op.get("name") or "")[:300]))
        o.hit("ops")
        h = self.handles.get(s)
        if kind == "sql":
            r = eng.attempt(h.execute, op["sql"])
            self.answers(op, r)
        elif kind == "nest":
            if op["batch"]:
                h.set_variable("@batch", op["batch"])
            seen = []

            def nested(x, op=op):
                if self.on_call:
                    self.on_call()
                seen.append(int(x))
                for inner in op["plan"].get(int(x), ()):
                    try:
                        self.step(inner)
                    except BaseException as e:
                        self.fail("nested", "a nested call raised %r" % e)
                return op["col"].get(int(x))
            h.use(op["fn"], nested)
            r = eng.attempt(h.execute, op["sql"])
            if op["batch"]:
                h.set_variable("@batch", 0)
            self.answers(op, r)
            if seen != sorted(op["col"]):
                self.fail("calls", "the function was called for %r, not once for each of %r" % (seen, sorted(op["col"])), sql=op["sql"])
        elif kind == "set":
            if op["sql"]:
                r = eng.attempt(h.execute, op["sql"])
                if isinstance(r, eng.Raised):
                    self.fail("raised", "%s" % r, sql=op["sql"])
            else:
                h.set_variable(op["name"], op["value"])
            got = h.get_variable(op["name"], "<none>")
            if got != op["value"]:
                self.fail("variable", "%s of %s is %r after it was set to %r" % (op["name"], s, got, op["value"]))
        elif kind == "use":
            h.use(op["name"], lambda x, tag=op["tag"]: (self.on_call and self.on_call(), x * 100 + tag)[1])
        elif kind == "push":
            h.push_memory_datas("sh", op["rows"])
        elif kind in ("unknown", "fail"):
            r = eng.attempt(h.execute, op["sql"])
            if not isinstance(r, eng.Raised):
                self.fail("no-error", "%s: the statement should fail: %s" % (s, "the function is not imported in this session" if kind == "unknown" else "it is invalid"), sql=op["sql"])
            if kind == "unknown":
                o.hit("unknown_function")
        elif kind == "enter":
            if h.__enter__() is None and False:
                pass
            self.wm.append(h)
        elif kind == "exit":
            self.wm.pop().__exit__(None, None, None)
        elif kind == "new":
            self.handles[s] = self.root(s).context()
        elif kind == "close":
            self.rows(s, op["shared"], "before close")
            isdef = isinstance(h, Default)
            for k in [k for k in self.handles if k.split(".")[0] == s]:
                del self.handles[k]
            h.close()
            self.open(s, op["sessions"], isdef, None)

    def answers(self, op, r):
        if isinstance(r, eng.Raised):
            return self.fail("raised", "%s raised %s" % (op["s"], r), sql=op["sql"])
        for name, rows in op["expect"].items():
            got = self.handles[op["s"]].pop_memory_datas(name)
            if not eng.same_rows(got, rows, False) or [k for r in got for k in r] != [k for r in rows for k in r] and False:
                self.fail("answer", "%s: wrong answer" % op["s"], sql=op["sql"], got=got, want=rows)

    def state(self, state):
        for s, vs in state.items():
            h = self.handles.get(s)
            if h is None:
                continue
            for v, want in vs.items():
                got = h.get_variable(v)
                self.obs.hit("host_reads")
                if got != want:
                    self.fail("state", "%s of session %s is %r, should be %r" % (v, s, got, want))


def run(case, obs):
    for k, n in case["hits"].items():
        obs.hit(k, n)
    for name, text in case["files"].items():
        open(name, "w").write(text)
    import syncanysql
    if syncanysql.ScriptEngine.current_context() is not None:
        obs.fail("current", "a context of an earlier case is still current")
    (run_history if case["kind"] == "history" else run_threads)(case, obs)


def run_history(case, obs):
    from syncanysql import ScriptEngine
    d = Driver(case, obs)
    obs.hit("history")
    config = {"encoding": "utf-8", "databases": []} if case["config"] else None
    for j, r in enumerate(case["engines"]):
        dflt = case["default"] and j == 0
        if dflt:
            obs.hit("default_engine")
        if config is not None:
            obs.hit("same_config")
        d.open(r, [s for s in case["sessions"] if s.split(".")[0] == r], dflt, config)
    try:
        for op in case["ops"]:
            d.step(op)
            d.state(op["state"])
            cur = ScriptEngine.current_context()
            want = d.handles[op["stack"][-1]] if op["stack"] else None
            if cur is not want:
                d.fail("current", "the current context is %r, should be that of session %s" % (cur, op["stack"][-1:] or None))
            if d.bad:
                break
            if op["op"] in ("sql", "nest"):
                obs.nontrivial(op["op"], op["sql"], len(op["stack"]))
        if not d.bad:
            for r, rows in case["shared"].items():
                d.rows(r, rows, "at the end")
            if config is not None and config != {"encoding": "utf-8", "databases": []}:
                d.fail("config", "the caller's config object was changed: %r" % config)
    finally:
        while d.wm:
            d.wm.pop().__exit__(None, None, None)
        if case["default"]:
            import syncanysql
            syncanysql.close()
        for r in case["engines"]:
            if r in d.handles and not isinstance(d.handles[r], Default):
                d.handles[r].close()
    obs.sample({"log": d.log[:6]})


# ---------------------------------------------------------------- threads
class Token:
    """Only the holder runs; it passes the token on at preemption points chosen by the case's own generator."""

    def __init__(self, seed, p):
        self.rng, self.p, self.cond, self.alive, self.cur, self.switches, self.trace, self.blocked = random.Random(seed), p, threading.Condition(), [], None, 0, [], set()

    def join(self, me):
        with self.cond:
            self.alive.append(me)

    def begin(self, me):
        with self.cond:
            if self.cur is None:
                self.cur = 0
            self.hold(me)

    def hold(self, me):
        while self.cur != me:
            cur = self.cur
            if not self.cond.wait(0.3) and self.cur == cur and cur != me:      # the holder may be blocked on a lock of this thread
                self.blocked.add(cur)
                self.cur = me
                break
        self.blocked.discard(me)

    def point(self, me, p=None):
        if self.rng.random() >= (self.p if p is None else p):
            return
        with self.cond:
            others = [t for t in self.alive if t != me and t not in self.blocked]
            self.blocked.discard(me)
            if not others:
                return
            self.cur = self.rng.choice(others)
            self.switches += 1
            if len(self.trace) < 60:
                self.trace.append((me, self.cur))
            self.cond.notify_all()
            self.hold(me)

    def leave(self, me):
        with self.cond:
            if me in self.alive:
                self.alive.remove(me)
            if self.cur == me and self.alive:
                self.cur = self.rng.choice(self.alive)
            self.cond.notify_all()


def run_threads(case, obs):
    obs.hit("threads")
    d = Driver(case, obs)
    for r in case["engines"]:
        d.open(r, [], lazy=case["lazy"])
    if case["lazy"]:
        obs.hit("lazy_setup")
    for op in case["setup"]:
        d.step(op)
    mode, n = case["mode"], len(case["progs"])
    tok = Token(case["seed"], case["p"])
    me = threading.local()
    if mode != "free":
        d.on_call = lambda: tok.point(me.i, 0.5)
    else:
        d.on_call = lambda: time.sleep(0)
        obs.hit("free_running")
    fill = threading.Lock()
    filled = set()
    pkg = os.sep + "syncanysql" + os.sep

    def local(frame, event, arg):
        if event == "line":
            tok.point(me.i)
        return local

    def tracer(frame, event, arg):
        return local if pkg in frame.f_code.co_filename else None

    def work(i):
        s, ops = case["progs"][i]
        me.i = i
        try:
            if mode != "free":
                tok.begin(i)
            if mode == "traced":
                sys.settrace(tracer)
            root = s.split(".")[0]
            if case["lazy"]:
                d.handles[root].execute("set @zz%d = %d" % (i, i))       # first use of the engine, by several threads at once
                if d.handles[root].get_variable("zz%d" % i) != i:
                    d.fail("setup", "the variable set by the first statement of a thread is lost")
                hold = sys.gettrace()
                sys.settrace(None)
                with fill:
                    if root not in filled:
                        d.fill(root)
                        filled.add(root)
                sys.settrace(hold)
            if "." in s:
                d.handles[s] = d.handles[root].context()
            for op in ops:
                d.step(op)
                obs.hit("thread_statements")
                if mode != "free":
                    tok.point(i, 0.3)
        except BaseException as e:
            import traceback
            d.fail("thread", "session %s: %r" % (s, e), trace=traceback.format_exc()[-1500:])
        finally:
            sys.settrace(None)
            if mode != "free":
                tok.leave(i)

    ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(n)]
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6 if mode == "free" else 1e-4)
    try:
        if mode != "free":
            for i in range(n):
                tok.join(i)
        for t in ts:
            t.start()
        for t in ts:
            t.join(100)
    finally:
        sys.setswitchinterval(interval)
    if any(t.is_alive() for t in ts):
        import traceback
        frames = sys._current_frames()
        return d.fail("deadlock", "a thread did not finish", threads=["".join(traceback.format_stack(frames[t.ident])[-8:]) for t in ts if t.is_alive() and t.ident in frames], mode=mode)
    if mode == "traced":
        obs.hit("traced")
    obs.hit("switches", tok.switches)
    obs.nontrivial("threads", case["seed"], tuple(tok.trace))
    if not d.bad:
        d.state(case["state"])
        for r, rows in case["shared"].items():
            if not case["lazy"] or r in filled:
                d.rows(r, rows + [{"w": "first", "k": 0}], "after all threads")
    for r in case["engines"]:
        d.handles[r].close()
