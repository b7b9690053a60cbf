"""C01: a script's statements are executed once each, in order, unaltered, and are attributed to their lines."""
import os, random
from vlib import eng, harness

META = {
    "id": "C01", "sizes": {"quick": 9000, "thorough": 120000},
    "rule": "random scripts of 1-12 statements (INSERT VALUES, INSERT SELECT, multi-line SELECT forms, SET + later use, DELETE by value, EXECUTE of a nested script) whose texts carry semicolons, quotes, backticks, comment markers, newlines and unicode in literals, quoted names and comments, joined by every kind of separator; run as text, as .sql file and through EXECUTE; non-trivial = at least two statements and one hostile piece; distinct by script text",
    "required": {"statements": 20000, "string_pieces": 5000, "comments": 10000, "mode_text": 1000, "mode_file": 1000, "mode_execute": 1000, "nested": 500, "line_checks": 20000, "empties": 2000, "broken": 200},
    "technique": "runtime monitoring: trace oracle over the effects of executed statements (a log table each statement writes to), the split observed at the parser, and differential text/file/EXECUTE runs",
    "note": "Every statement leaves a distinct trace in a log table, so dropped, duplicated, merged, reordered or altered statements are all visible; line attribution is read from the parser's segments and from the names tasks are compiled under.",
}
BITS = [";", "'", '"', "`", "--", "-- ", "#", "/*", "*/", "\n", "\\", "\\\\", "\t", " ", "a", "Bc", "1", "it's", "select 1;", "\u6f22", "\u00e9", "\U0001f600", "end", ",", "(", ")", "%", "$", "{x", "=", "''", '""', "insert into log values (99,'x');", "/**/", "\r\n"]
NAMEBITS = [";", "'", '"', "--", "#", "/*", "*/", " ", "a", "B", "1", "it's", "\u00e9", "-", "=", "select", "order", ",", "(", ")", "%"]
CBITS = [";", "'", '"', "`", "it's", "don't; ", "select 1;", "--", "#", "'", "\\", " insert into log values (98,'c'); ", "\u6f22", "x", " ", ")", "(", "''';", "/"]


def text(rng):
    return "".join(rng.choice(BITS) for _ in range(rng.choice([0, 1, 2, 3, 3, 5, 8])))


def quoted(rng, s):
    q = rng.choice("''\"")
    out = ""
    for c in s:
        out += "\\\\" if c == "\\" else (rng.choice([q + q, "\\" + q]) if c == q else c)
    return q + out + q


def comment(rng):
    x = rng.random()
    body = "".join(rng.choice(CBITS) for _ in range(rng.choice([0, 1, 2, 4])))
    if x < 0.35:
        return "--" + rng.choice([" ", "", "-"]) + body + rng.choice(["", "*/", " /*"]) + rng.choice(["\n", "\n", "\r\n"])
    if x < 0.6:
        return "#" + body + rng.choice(["", "*/", "/*"]) + "\n"
    body = rng.choice([" ", "", "*"]) + body + rng.choice(["", "\n", " -- x\n", "**", " "]) + rng.choice(["", " "])
    while "*/" in body or "/*" in body:
        body = body.replace("*/", "").replace("/*", "")
    return "/*" + body.lstrip("+/") + "*/"


def gap(rng, p=0.12):
    """white space between two tokens, now and then with a comment"""
    x = rng.random()
    if x < p:
        return rng.choice([" ", "\n"]) + comment(rng) + " "
    return rng.choice([" ", " ", " ", " ", "\n", "  ", "\t", "\r\n"])


def between(rng):
    out = ""
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        out += rng.choice([" ", "\n", "\n\n", ";", " ;\n", "\t", comment(rng), comment(rng), "\r\n"])
    return out


def join(rng, tokens):
    out = tokens[0]
    for t in tokens[1:]:
        out += gap(rng) + t
    return out


class Case:
    def __init__(self, rng, depth=0):
        self.rng, self.n, self.nested, self.vars = rng, 0, [], 0

    def statement(self, depth):
        rng = self.rng
        self.n += 1
        n, s = self.n, text(rng)
        x = rng.random()
        q = quoted(rng, s)
        if x < 0.3:
            return join(rng, ["INSERT", "INTO", rng.choice(["log", "`log`"]), "(n,", "s)", rng.choice(["VALUES", "values"]), "(", str(n), ",", q, ")"]), [("add", n, s)]
        if x < 0.6:
            return join(rng, ["insert", "into", "log", "SELECT", str(n), "AS", "n,", q, "AS", "`s`"]), [("add", n, s)]
        if x < 0.7:
            name = "".join(rng.choice(NAMEBITS) for _ in range(rng.choice([1, 2, 3])))
            return join(rng, ["INSERT INTO log", "SELECT", "a.`%s`" % name, "as n,", "a.s", "FROM", "(SELECT", str(n), "AS", "`%s`" % name + ",", q, "AS s", ")", "a"]), [("add", n, s)]
        if x < 0.8 and self.vars < 4 and depth == 0:
            self.vars += 1
            s = s.strip(" \n\t\r'\"\\") or "v"      # SET takes the text after the equal sign trimmed
            return join(rng, ["SET", "@v%d" % self.vars + "=" + quoted(rng, s)]), [("set", self.vars, s)]
        if x < 0.86 and self.vars and depth == 0:
            k = rng.randint(1, self.vars)
            return join(rng, ["INSERT INTO log SELECT", str(n), "AS n,", "@v%d" % k, "AS s"]), [("addvar", n, k)]
        if x < 0.93:
            return join(rng, ["DELETE", "FROM", "log", "WHERE", "s", "=", q]), [("del", s)]
        if depth < 2 and x < 0.97:
            path = os.path.join(self.dir, "n%d.%s" % (len(self.nested), rng.choice(["sql", "sql", "sqlx"])))
            self.nested.append(None)
            k = len(self.nested) - 1
            body, ops, _, _ = self.script(depth + 1, rng.randint(1, 4))
            self.nested[k] = (path, body)
            return "EXECUTE `%s`" % path, ops
        return join(rng, ["INSERT INTO", "log", "SELECT", str(n), "AS n,", "concat(", q, ",", "'')", "AS s", "FROM", "one", "WHERE", "id", "=", "1", "or s =", q]), [("add", n, s)]

    def script(self, depth, count):
        rng, out, ops, starts, texts = self.rng, "", [], [], []
        out += rng.choice(["", "", "", "\ufeff", "\n", " "]) + between(rng)
        for k in range(count):
            t, o = self.statement(depth)
            starts.append(1 + out.count("\n"))
            texts.append(t)
            out += t
            ops += o
            end = rng.choice(["", "", " ", "\n", gap(rng, 1.0)])
            if k + 1 < count or rng.random() < 0.6:
                out += end + ";"
                out += between(rng) or " "
            else:
                out += rng.choice(["", " ", "\n", " -- end", "#end;", "/* ; */"])
        return out, ops, starts, texts


def make(rng, i, tier):
    return {"seed": rng.getrandbits(48), "count": rng.choice([1, 2, 3, 4, 6, 9, 12])}


def model(ops):
    log, variables = [], {}
    for o in ops:
        if o[0] == "set":
            variables[o[1]] = o[2]
    for o in ops:
        if o[0] == "add":
            log.append({"n": o[1], "s": o[2]})
        elif o[0] == "addvar":
            log.append({"n": o[1], "s": variables[o[2]]})
        elif o[0] == "del":
            log = [r for r in log if r["s"] != o[1]]
    return log


def names(e):
    """names statements are compiled under, in order"""
    seen, f = [], type(e.executor).compile

    def compile(self, name, sql):
        seen.append(name)
        return f(self, name, sql)
    return seen, f, compile


def run(case, obs):
    from syncanysql.parser import SqlParser
    from syncanysql.executor import Executor
    os.system = lambda cmd: system.append(cmd)        # EXECUTE of anything but a script file would run it as a command
    rng, system = random.Random(case["seed"]), []
    c = Case(rng)
    c.dir = harness.scratch()
    body, ops, starts, texts = c.script(0, case["count"])
    for path, content in c.nested:
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(content)
    main = os.path.join(c.dir, "main.sql")
    with open(main, "w", encoding="utf-8", newline="") as f:
        f.write(body)
    want = model(ops)
    obs.hit("statements", len(texts))
    obs.hit("string_pieces", sum(len(o[2] if o[0] != "del" else o[1]) > 1 for o in ops if o[0] in ("add", "set", "del")))
    obs.hit("comments", body.count("--") + body.count("#") + body.count("/*"))
    obs.hit("empties", body.count(";;") + body.count("; ;") + body.count("\n;"))
    obs.hit("nested", len(c.nested))
    # the split
    segs = eng.attempt(lambda: SqlParser(body).split())
    if isinstance(segs, eng.Raised):
        obs.fail("split", "splitting failed", script=body, got=segs)
        return
    if len(segs) != len(texts):
        obs.fail("split", "%d statements became %d" % (len(texts), len(segs)), script=body, got=[str(s) for s in segs])
        return
    for s, t, l in zip(segs, texts, starts):
        obs.hit("line_checks")
        if not str(s.sql).startswith(t):
            obs.fail("text", "statement text altered", script=body, got=str(s.sql), want=t)
            return
        if s.lineno != l:
            obs.fail("line", "statement on line %d attributed to line %s" % (l, s.lineno), script=body, statement=t)
            return
    # execution
    for mode in ("text", "file", "execute"):
        obs.hit("mode_" + mode)
        e = eng.engine({"one": [{"id": 1, "s": "one"}]})
        compiled, orig = [], Executor.compile

        def compile(self, name, sql):
            compiled.append(name)
            return orig(self, name, sql)
        Executor.compile = compile
        try:
            if mode == "text":
                r = eng.attempt(e.execute, body)
            elif mode == "file":
                from syncanysql.parser import FileParser

                def go():
                    with e.executor as x:
                        x.run(main, FileParser(main).load())
                        x.execute()
                r = eng.attempt(go)
            else:
                r = eng.attempt(e.execute, "EXECUTE `%s`" % main)
        finally:
            Executor.compile = orig
        got = eng.memory_tables(e).get("--.log", [])
        if isinstance(r, eng.Raised) or [(g.get("n"), g.get("s")) for g in got] != [(w["n"], w["s"]) for w in want]:
            obs.fail("run:" + mode, "run as %s differs" % mode, script=body, nested=c.nested, got=r if isinstance(r, eng.Raised) else got, want=want)
            return
        tail = [n.rsplit("(", 1)[1].rstrip(")") for n in compiled if "#" not in n.rsplit("(", 1)[-1] and "(" in n and (n.startswith(main) if mode != "text" else n.startswith("execute["))]
        if mode != "execute" and [int(t) for t in tail if t.isdigit()] != starts:
            obs.fail("lines:" + mode, "tasks named after lines %s, statements start at %s" % (tail, starts), script=body)
            return
    if system:
        obs.fail("system", "a statement was run as a system command", script=body, got=system)
    if len(texts) > 1 and any(x in body for x in (";'", "--", "#", "/*", "\\")):
        obs.nontrivial(body)
        obs.sample({"script": body[:400], "statements": len(texts)})
    # an unterminated literal or comment is an error, never silently a different script
    if case["seed"] % 12 == 0:
        obs.hit("broken")
        e = eng.engine({})
        bad = "insert into log select 1 as n, 's' as s; insert into log select 2 as n, " + ("'open as s; insert into log select 3 as n, 4 as s" if case["seed"] % 24 else "'x' as s /* open ; insert into log select 3 as n, 4 as s")
        r = eng.attempt(e.execute, bad)
        if not isinstance(r, (eng.Raised,)) or any(g.get("n") != 1 for g in eng.memory_tables(e).get("--.log", [])):
            obs.fail("broken", "an unterminated %s was accepted" % ("literal" if case["seed"] % 24 else "comment"), script=bad, got=eng.memory_tables(e).get("--.log"))
    for path, _ in c.nested:
        os.unlink(path)
    os.unlink(main)
