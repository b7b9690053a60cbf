"""C33: the host API keeps named tables of rows like a store, with the lifetime of its engine."""
import copy, datetime, decimal, os, threading

from vlib import eng

META = {
    "id": "C33", "sizes": {"quick": 5000, "thorough": 80000}, "chunk": 25,
    "rule": "a history of host calls (push, get, pop, execute, variables, use, databases, contexts, close) on two engines, their contexts and the module's default engine ran against a model of the store; after each step a table chosen at random, and at the end every table of every engine, was compared",
    "required": {"steps": 40000, "push": 8000, "push_one": 1000, "push_empty": 400, "get": 5000, "pop": 3000, "pop_empty": 500, "insert": 4000, "delete": 1000, "read": 3000, "caller_changes": 5000, "variables": 3000, "use": 1500,
                 "other_spelling": 1500, "database": 1500, "unknown_database": 500, "configured_database": 300, "context": 1500, "module": 5000, "close": 1000, "module_close": 600, "with": 500, "current": 1500, "thread": 300, "nested_change": 300, "raised": 800, "closed_get": 400},
    "technique": "runtime monitoring: model of the store run in lock step with the real engines, observed through every way of reading a table",
    "level": "exercised",
}

NAMES = ["t", "u", "T", "rows", "t1", "a b", "x.y", "é", "t-1", "_t", "select", "123"]
PLAIN = ["t", "u", "rows", "t1", "_t"]
VALUES = [1, 0, -5, 2.5, "a", "", "it's", None, True, datetime.date(2023, 1, 2), datetime.datetime(2023, 1, 2, 3, 4, 5), [1, 2], {"p": [1, {"q": 2}]}, [], {}, b"x", 12345678901234567890, decimal.Decimal("1.50"), ["a", ["b"]]]
DBS = ["nosuch", "T", "sq", "-.x", "mysql", "log3", "LOG33", "log33.", "og33", "Main", "33"]
KNOWN = {"A": ["log33", "Main33"], "B": ["log33"], "M": []}


def rows(rng, n):
    cols = rng.choice([["id"], ["id", "v"], ["v"], ["id", "v", "w x"]])
    out = []
    for _ in range(n):
        r = {c: rng.choice([1, 2, 3, 3]) if c == "id" else copy.deepcopy(rng.choice(VALUES)) for c in cols}
        if rng.random() < 0.1:
            r["extra"] = 1
        out.append(r)
    return out


def make(rng, i, tier):
    steps = []
    n = rng.randint(10, 26)
    plain = rng.sample(PLAIN, 2)
    names = plain + plain[:1] + rng.sample(NAMES, 2)
    people = rng.choice([["A", "Ac", "Ad"], ["A", "A", "Ac", "B"], ["M", "M", "A", "Ac"], ["A", "A", "B", "M", "M", "Ac", "Ac", "Ad", "Bc"]])
    for _ in range(n):
        who = rng.choice(people)
        r = rng.random()
        name = rng.choice(names)
        if r < 0.24:
            y = rng.random()
            data = rows(rng, 1)[0] if y < 0.2 else [] if y < 0.28 else rows(rng, rng.choice([1, 1, 2, 3, 5]))
            steps.append(("push", who, name, data, rng.random() < 0.6))
        elif r < 0.36:
            steps.append(("get", who, name, rng.random() < 0.6))
        elif r < 0.45:
            steps.append(("pop", who, name))
        elif r < 0.55:
            k = rng.randint(1, 9)
            steps.append(("insert", who, rng.choice(plain), k))
        elif r < 0.59:
            steps.append(("delete", who, rng.choice(plain), rng.randint(1, 3)))
        elif r < 0.66:
            steps.append(("read", who, rng.choice(plain)))
        elif r < 0.74:
            steps.append(("var", who, rng.choice(["x33", "y33"]), copy.deepcopy(rng.choice(VALUES)), rng.random() < 0.5))
        elif r < 0.79:
            steps.append(("use", who, rng.choice(["f33", "g33"]), rng.randint(1, 99)))
        elif r < 0.83:
            steps.append(("db", who, rng.choice(DBS + [None, "--"] + 3 * ["log33", "Main33"])))
        elif r < 0.88:
            steps.append(("raise", who, rng.choice(["select (1", "insert into `t` select nosuch33(1) as a from", "selec", "insert into `t` select nosuch33$f(id) as id from `u`"])))
        elif r < 0.91:
            steps.append(("close", rng.choice(["A", "B", "M", "M"]), rng.random() < 0.5))
        elif r < 0.96:
            steps.append(("with", rows(rng, 2)))
        else:
            steps.append(("current", rng.choice(["Ac", "Ad", "Bc"]), rng.choice(["Ac", "Ad", "Bc"]), rng.random() < 0.5, rng.random() < 0.5))
    return {"steps": steps}


def spoil(x):
    """The caller changes what it handed over or was given."""
    if isinstance(x, list):
        for y in x:
            spoil(y)
        x.append("spoilt")
    elif isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (list, dict)):
                spoil(x[k])
            else:
                x[k] = "spoilt"
        x["spoilt"] = 1


def same(a, b):
    return eng.norm(a) == eng.norm(b)


class World:
    def __init__(self):
        import syncanysql
        self.M = syncanysql
        self.Engine = syncanysql.ScriptEngine
        self.real, self.tables, self.vars, self.funcs = {}, {}, {}, {}
        self.M.close()
        for k in "ABM":
            self.open(k)

    def open(self, k):
        for x in list(self.real):
            if x[0] == k:
                self.real.pop(x)
        self.real[k] = self.M if k == "M" else self.Engine({"databases": [
            {"name": n, "driver": "sqlite", "database": "/nonexistent/%s-%s.db" % (k, n)} for n in KNOWN[k]]})
        self.tables[k] = {}
        for x in (k, k + "c", k + "d"):
            self.vars[x], self.funcs[x] = {}, {}

    def of(self, who):
        if who not in self.real:
            self.real[who] = self.real[who[0]].context()
        return self.real[who]

    def rows(self, who, name):
        return self.tables[who[0]].setdefault(name, [])

    def var(self, who, name):
        return self.vars[who].get(name, self.vars[who[0]].get(name, "<unset>"))

    def func(self, who, name):
        return self.funcs[who].get(name, self.funcs[who[0]].get(name))


def run(case, obs):
    w = World()
    try:
        for n, st in enumerate(case["steps"]):
            obs.hit("steps")
            msg = step(w, st, obs, n)
            if msg:
                return obs.fail(st[0], "step %d %r: %s" % (n, st, msg), steps=case["steps"][:n + 1])
        for k in "ABM":
            for who in [x for x in w.real if x[0] == k]:
                for name in NAMES:
                    got = w.real[who].get_memory_datas(name)
                    if not same(got, w.rows(k, name)):
                        return obs.fail("end", "at the end table %r read by %s is %r, not %r" % (name, who, got, w.rows(k, name)), steps=case["steps"])
        obs.nontrivial(case["steps"])
        obs.sample([s[:3] for s in case["steps"]][:8])
    finally:
        w.M.close()
        for k in "AB":
            w.real[k].close()


def step(w, st, obs, n):
    op, who = st[0], st[1]
    if op == "with":
        obs.hit("with")
        with w.Engine({}) as e:
            e.push_memory_datas("t", copy.deepcopy(st[1]))
            got = e.get_memory_datas("t")
            e.execute("insert into `t` select 5 as id")
            more = e.get_memory_datas("t")
        if not same(got, st[1]) or not same(more, st[1] + [{"id": 5}]):
            return "an engine in a with block holds %r, then %r" % (got, more)
        if e.get_memory_datas("t"):
            return "after the with block the engine still holds rows"
        return
    if op == "close":
        if who == "M":
            obs.hit("module_close")
            before = w.M.instance()
            w.M.close()
            if st[2]:
                w.M.close()
            w.open("M")
            if any(before.get_memory_datas(name) for name in NAMES):
                return "the closed default engine still holds rows"
            if w.M.instance() is before or w.M.instance() is not w.M.instance():
                return "after close() the default engine is the same object, or differs from call to call"
        else:
            obs.hit("close")
            e = w.real[who]
            e.close()
            if st[2]:
                e.close()
            obs.hit("closed_get")
            for name in NAMES:
                if e.get_memory_datas(name) or e.pop_memory_datas(name):
                    return "a closed engine still holds rows"
            w.open(who)
        return
    e = w.of(who)
    obs.hit("context", len(who) == 2)
    obs.hit("module", who == "M")
    if op == "push":
        data = copy.deepcopy(st[3])
        obs.hit("push")
        obs.hit("push_one", isinstance(data, dict))
        obs.hit("push_empty", data == [])
        e.push_memory_datas(st[2], data)
        w.rows(who, st[2]).extend(copy.deepcopy([st[3]] if isinstance(st[3], dict) else st[3]))
        if not same(data, st[3]):
            return "push changed the caller's rows to %r" % (data,)
        if st[4]:
            obs.hit("caller_changes")
            spoil(data)
        got = e.get_memory_datas(st[2])
        if not same(got, w.rows(who, st[2])):
            return "the table is %r, not %r" % (got, w.rows(who, st[2]))
    elif op in ("get", "pop"):
        obs.hit(op)
        want = copy.deepcopy(w.rows(who, st[2]))
        got = e.get_memory_datas(st[2]) if op == "get" else e.pop_memory_datas(st[2])
        if not isinstance(got, list) or not same(got, want):
            return "returned %r, not %r" % (got, want)
        if op == "pop":
            obs.hit("pop_empty", not want)
            w.tables[who[0]][st[2]] = []
            spoil(got)
        elif st[3]:
            obs.hit("caller_changes")
            obs.hit("nested_change", any(isinstance(v, (list, dict)) for r in want for v in r.values()))
            spoil(got)
        again = e.get_memory_datas(st[2])
        if not same(again, w.rows(who, st[2])):
            return "after %s the table is %r, not %r" % (op, again, w.rows(who, st[2]))
    elif op == "insert":
        obs.hit("insert")
        r = e.execute("insert into `%s` select %d as id, 'n' as v" % (st[2], st[3]))
        if r is not None and not hasattr(r, "execute"):
            pass
        w.rows(who, st[2]).append({"id": st[3], "v": "n"})
        got = w.of(who[0]).get_memory_datas(st[2])
        if not same(got, w.rows(who, st[2])):
            return "the table is %r, not %r" % (got, w.rows(who, st[2]))
    elif op == "delete":
        obs.hit("delete")
        e.execute("delete from `%s` where id = %d" % (st[2], st[3]))
        t = w.rows(who, st[2])
        t[:] = [r for r in t if r.get("id") != st[3]]
        got = e.get_memory_datas(st[2])
        if not same(got, t):
            return "the table is %r, not %r" % (got, t)
    elif op == "read":
        obs.hit("read")
        e.execute("insert into `out33` select id from `%s`" % st[2])
        got, want = e.pop_memory_datas("out33"), [{"id": r.get("id")} for r in w.rows(who, st[2])]
        if not same(got, want):
            return "a query reads %r, not %r" % (got, want)
    elif op == "var":
        obs.hit("variables")
        val = copy.deepcopy(st[3])
        e.set_variable(("@" if st[4] else "") + st[2], val)
        w.vars[who][st[2]] = val
        obs.hit("other_spelling")
        for x in [k for k in w.real]:
            for v in ("x33", "y33"):
                want = w.var(x, v)
                for spelt in (v, "@" + v):
                    got = w.real[x].get_variable(spelt, "<unset>")
                    if type(got) is not type(want) or got != want:
                        return "%s read by %s is %r, not %r" % (spelt, x, got, want)
        if e.get_variable("never33") is not None or e.get_variable("@never33", 4) != 4:
            return "the default for an unset variable is not returned"
    elif op == "use":
        obs.hit("use")
        k = st[3]
        e.use(st[2], lambda x, k=k: x * 1000 + k)
        w.funcs[who][st[2]] = k
        for x in [k for k in w.real]:
            want = w.func(x, st[2])
            r = eng.attempt(w.real[x].execute, "insert into `out33` select %s(2) as z" % st[2])
            got = w.real[x].pop_memory_datas("out33")
            if want is None:
                if got:
                    return "%s can call %s, which it was not given: %r" % (x, st[2], got)
            elif isinstance(r, eng.Raised) or not same(got, [{"z": 2000 + want}]):
                return "%s called by %s gives %r %r, not %d" % (st[2], x, got, r, 2000 + want)
    elif op == "db":
        obs.hit("database")
        from syncany.errors import DatabaseUnknownException
        if st[2] in (None, "--"):
            d = e.get_database(st[2])
            if d is not e.get_database() or d is not w.of(who[0]).get_database("--"):
                return "the memory database is another object"
        elif st[2] in KNOWN[who[0]]:
            obs.hit("configured_database")
            d = e.get_database(st[2])
            if d is not w.of(who[0]).get_database(st[2]) or d is e.get_database():
                return "a configured database is not one object of its own"
            if d.name != st[2] or d.config.get("database") != "/nonexistent/%s-%s.db" % (who[0], st[2]):
                return "get_database(%r) of %s gives %r %r" % (st[2], who[0], d.name, d.config)
        else:
            obs.hit("unknown_database")
            try:
                return "an unknown database gives %r" % (e.get_database(st[2]),)
            except DatabaseUnknownException:
                pass
    elif op == "raise":
        obs.hit("raised")
        before = copy.deepcopy(w.tables[who[0]])
        try:
            e.execute(st[2])
            return "no error"
        except Exception:
            pass
        for name in PLAIN:
            got = e.get_memory_datas(name)
            if not same(got, before.get(name, [])):
                return "after the failed statement table %r is %r" % (name, got)
    elif op == "current":
        obs.hit("current")
        E = w.Engine
        c, d = w.of(who), w.of(st[2])
        if E.current_context() is not None:
            return "there is a current context outside every with block"
        seen = []
        try:
            with c as got:
                seen.append(got is c and E.current_context() is c)
                with d:
                    seen.append(E.current_context() is d)
                    if st[3]:
                        obs.hit("thread")
                        t = threading.Thread(target=lambda: seen.append(E.current_context() is None))
                        t.start()
                        t.join()
                    if st[4]:
                        raise KeyError("33")
                seen.append(E.current_context() is c)
        except KeyError:
            pass
        seen.append(E.current_context() is None)
        if not all(seen):
            return "the current context in nested with blocks is wrong: %r" % (seen,)
