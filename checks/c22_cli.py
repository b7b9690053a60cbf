"""C22: the command line runs a script fully and reports the outcome.

Scripts made of statements with known effects (rows appended to files and to a SQLite database, rows printed, variables, executed files,
imports) run through the real `main()` in a separate process with real file descriptors (a terminal, a pipe or /dev/null on standard
input) and, for part of the cases, through `python -m syncanysql.main` and `bin/syncany-sql`. Exit status, files, database and the order
of printed rows are compared with the expected effects of the statements completed before the first failure, and with the embedding API.
"""
import json, os, pty, re, shutil, signal, sqlite3, subprocess, sys, time
from vlib import eng

META = {
    "id": "C22", "sizes": {"quick": 2200, "thorough": 16000}, "chunk": 8,
    "rule": "exit status, files, database and printed rows of each run equal the effects of exactly the statements completed before the first failure, and those of the embedding API",
    "required": {"runs": 1700, "mode:file": 650, "mode:pipe": 400, "mode:tty": 150, "mode:prql": 80, "mode:refused": 70, "real_process": 35, "exit0": 700, "failed": 600, "fail:run": 250, "fail:compile": 180, "fail:split": 40, "fail:file": 80, "fail:init": 30, "signal": 70, "api": 500, "params": 900, "param_flag": 60,
                 "param_quoted": 180, "subfile": 250, "init": 300, "printed": 600, "db": 550, "appended": 3200, "stdin_ignored": 400, "quoted_pipe": 40, "comments": 450, "effects_before_failure": 200, "prog_name": 15},
    "technique": "the real command run as processes under generated scripts, parameters, standard inputs, faults and signals; effects on files, database and output compared with a model and with the embedding API",
    "note": "A script is compiled as a whole before its first statement runs, so a statement that cannot be compiled prevents all of them. With a script on standard input a file argument of another kind is ignored.",
}
RUNFAIL = ["insert into `never.json` select sum(s) as x from `in22.json`", "insert into `never.json` select id from `bad22.json`", "insert into `dir22.json` select 1 as id", "insert into sq.missing select 1 as id", "select sum(s) as a into @zz from `in22.json`", "insert into `never.json` select x.id as id from (select id from `bad22.json`) x",
           "insert into sq.t select 50 as id, 5 as n"]
COMPFAIL = ["selec 1", "insert into `never.json` select bogus22(1) as x", "insert into `never.json` select id from nodb22.t", "execute `missing22.sql`", "select (1 as x", "use `nomodule22`"]
SPLITFAIL = ["select 'abc", "select 1 as a from `t", "/* never closed", "select \"x"]
TEXTS = ["a;b", "x -- y", "# no", "/* c */", "it''s", "l1\nl2", "é中", "a\\\\b", "`q`", "", "${nope22:d;e}", "plain", "tab\there", "50%"]


def statement(rng, st, depth=0):
    """One statement: (sql, effects); effects are applied to the model when it completes."""
    st["n"] += 1
    n = st["n"]
    kind = rng.choice(["log", "log", "log", "log", "text", "print", "print", "db", "dbdel", "set", "setexpr", "count", "param", "use", "exec", "empty", "explain"])
    log = lambda sql: ("insert into `log.json` select %d as n, %s as v" % (n, sql))
    if kind == "text":
        i = rng.randrange(len(TEXTS))
        t = TEXTS[i]
        val = {"it''s": "it's", "a\\\\b": "a\\b", "${nope22:d;e}": "d;e"}.get(t, t)
        return log("'%s'" % t), [("log", n, val)], kind
    if kind == "print":
        m = 900000000 + rng.randint(0, 99999999)
        return "select %d as m, '%s' as w" % (m, rng.choice("abc")), [("print", m)], kind
    if kind == "db":
        return "insert into sq.t select %d as id, %d as n" % (1000 + n, n), [("db", 1000 + n)], kind
    if kind == "dbdel" and st["ids"]:
        i = rng.choice(st["ids"])
        return "delete from sq.t where id = %d" % i, [("del", i)], kind
    if kind == "set":
        x = rng.randint(1, 99)
        v = "@v%d" % n       # constant SETs take effect when the script is compiled (pinned by the tests), so one per variable
        return "set %s = %d; %s" % (v, x, log("%s" % v)), [("log", n, x)], kind
    if kind == "setexpr":
        return "set @q%d = (select max(id) from `in22.json` where id <= 900000003); %s" % (n, log("@q%d" % n)), [("log", n, 900000003)], kind
    if kind == "count":
        return "select count(*) as c into @c%d from `in22.json`; %s" % (n, log("@c%d + 1" % n)), [("log", n, 6)], kind
    if kind == "param" and st["params"]:
        name = rng.choice(list(st["params"]))
        raw, val = st["params"][name]
        if val is True or rng.random() < 0.5 or "'" in val or "\\" in val:
            return log("@%s" % name), [("log", n, val)], kind
        return log("'${%s}'" % name), [("log", n, val)], kind
    if kind == "use":
        x = rng.randint(1, 50)
        return "use `u22`; %s" % log("u22$twice(%d)" % x), [("log", n, 2 * x)], kind
    if kind == "exec" and depth == 0 and len(st["subs"]) < 2:
        name = "sub%d.sql" % n
        stmts = [statement(rng, st, 1) for _ in range(rng.randint(1, 3))]
        st["subs"][name] = ";\n".join(s[0] for s in stmts) + ";"
        return "execute `%s`" % name, [e for s in stmts for e in s[1]], "subfile"
    if kind == "empty":
        return log("%d" % n) + ";;", [("log", n, n)], kind
    if kind == "explain" and depth == 0:
        return "explain select 1 as a", [], kind
    x = rng.randint(-50, 50)
    return log("%d" % x), [("log", n, x)], "log"


def make(rng, i, tier):
    st = {"n": 0, "ids": [1, 2, 3], "params": {}, "subs": {}}
    mode = rng.choice(["file"] * 8 + ["pipe"] * 5 + ["tty"] * 2 + ["prql", "refused", "signal"])
    for name in rng.sample(["p", "name", "Key_1", "x2", "path"], rng.choice([0, 0, 1, 2])):
        raw, val = rng.choice([("--%s=v%d" % (name, rng.randint(1, 9)), None), ("--%s=12" % name, "12"), ("--%s" % name, True), ('--%s="a b"' % name, "a b"), ("--%s='c d'" % name, "c d"), ("--%s=a=b" % name, "a=b"), ("--%s=" % name, ""), ("--%s=é" % name, "é"), ("--%s=x.txt" % name, "x.txt"),
                               ("--%s=-5" % name, "-5"), ("--%s=b.sql" % name, "b.sql"), ('--%s="q' % name, '"q'), ("--%s=it's" % name, "it's"), ("--%s=''" % name, "")])
        st["params"][name] = (raw, raw.partition("=")[2] if val is None else val)
    stmts = [statement(rng, st) for _ in range(rng.randint(1, 7))]
    fail = rng.choice([None] * 6 + ["run", "run", "run", "compile", "compile", "split", "subrun", "subcompile"]) if mode in ("file", "pipe", "tty") else None
    parts = [s[0] for s in stmts]
    effects = [s[1] for s in stmts]
    done = len(stmts)
    if fail:
        k = rng.randint(0, len(parts))
        if fail == "split":
            k = len(parts)
        done = k if fail in ("run", "subrun") else 0
        text = rng.choice({"run": RUNFAIL, "compile": COMPFAIL, "split": SPLITFAIL, "subrun": RUNFAIL, "subcompile": COMPFAIL}[fail])
        if fail[:3] == "sub":
            a, b = statement(rng, st, 1), statement(rng, st, 1)
            st["subs"]["fsub.sql"] = ";\n".join([a[0], text, b[0]])
            text = "execute `fsub.sql`"
            parts.insert(k, text)
            effects.insert(k, a[1])
            done = k + 1 if fail == "subrun" else 0
        else:
            parts.insert(k, text)
            effects.insert(k, [])
    return {"mode": mode, "parts": parts, "effects": effects, "done": done, "fail": fail, "params": st["params"], "subs": st["subs"], "kinds": [s[2] for s in stmts], "sep": rng.choice([";\n", "; ", ";\n\n-- a; comment\n", ";\n# another's; one\n", " ; /* x; ' */ "]),
            "tail": rng.choice(["", ";", ";\n", ";\n-- end", "\n"]) if fail != "split" else "", "name": rng.choice(["s22.sql", "s22.sqlx", "S22.SQL", "a b.sql", "dé.sql", "./s22.sql"]), "stdin": rng.choice(["null", "pipe", "pipe_sql"]), "init": rng.random() < 0.25, "initfail": rng.random() < 0.1,
            "filefail": rng.choice([None] * 18 + ["missing", "dir", "bytes", "directory"]) if mode in ("file", "tty") else None, "quoted": rng.choice([None, None, None, '"', "'"]), "refname": rng.choice(["s22.txt", "s22.json", "s22.py", "s22.sql.bak", "missing.csv"]),
            "prql_gt": rng.randint(0, 6), "signal": rng.choice(["TERM", "HUP", "INT", "TERM"]), "sigbatch": rng.random() < 0.5, "sigsub": rng.random() < 0.3, "real": i % 40 == 3, "bom": rng.random() < 0.1, "extra_arg": rng.choice(["none", "none", "txt"]), "i": i}


def child(argv, cwd, fds, env, api=None):
    """Forks; the child runs main() (or the embedding API on `api`) with these descriptors. Returns the pid."""
    pid = os.fork()
    if pid:
        return pid
    code = 70
    try:
        signal.alarm(0)
        for s in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGALRM):
            signal.signal(s, signal.default_int_handler if s == signal.SIGINT else signal.SIG_DFL)
        os.chdir(cwd)
        os.environ.update(env)
        for n, fd in enumerate(fds):
            os.dup2(fd, n)
        os.closerange(3, 256)
        sys.stdin = open(0, encoding="utf-8", closefd=False)
        sys.stdout = open(1, "w", encoding="utf-8", closefd=False)
        sys.stderr = open(2, "w", encoding="utf-8", closefd=False)
        sys.argv = argv
        import logging
        logging.disable(logging.CRITICAL)
        try:
            if api is None:
                from syncanysql.main import main
                main()
            else:
                if os.getcwd() not in sys.path:
                    sys.path.insert(0, os.getcwd())
                from syncanysql import ScriptEngine
                e = ScriptEngine()
                e.execute(api)
                e.close()
            code = 0
        except SystemExit as x:
            code = x.code if isinstance(x.code, int) else (0 if x.code is None else 1)
        except KeyboardInterrupt:
            code = 130
        except BaseException as x:
            sys.stderr.write("%s: %s\n" % (type(x).__name__, x))
            code = 1
        sys.stdout.flush()
        sys.stderr.flush()
    finally:
        os._exit(code)


def wait(pid, limit=100):
    end = time.time() + limit
    while time.time() < end:
        p, status = os.waitpid(pid, os.WNOHANG)
        if p:
            return os.waitstatus_to_exitcode(status)
        time.sleep(0.003)
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return "hang"


def init_worker(scratch):
    import syncanysql.main          # noqa: loaded once, the children are forked


def build(case, d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "dir22.json"))
    w = lambda name, text: open(os.path.join(d, name), "w", encoding="utf-8", newline="").write(text)
    w("in22.json", json.dumps([{"id": 900000000 + j, "s": "x%d" % j} for j in range(1, 6)]))
    w("bad22.json", "[{")
    w("u22.py", "import os, time\ndef twice(x):\n    return 2 * x\ndef hold(x):\n    open('started22', 'a').write('x')\n    end = time.time() + 20\n    while not os.path.exists('go22') and time.time() < end:\n        time.sleep(0.005)\n    return x\n")
    for name, text in case["subs"].items():
        w(name, text)
    config = {"databases": [{"name": "sq", "driver": "sqlite", "database": os.path.join(d, "d22.db")}]}
    if case["init"]:
        w("init22.sql", "insert into `log.json` select 0 as n, 'init' as v;" + (" insert into `never.json` select sum(s) as x from `in22.json`;" if case["initfail"] else ""))
        config["executes"] = ["init22.sql"]
    w("config.json", json.dumps(config))
    con = sqlite3.connect(os.path.join(d, "d22.db"))
    con.execute("create table t (id integer primary key, n int)")
    con.executemany("insert into t values (?,?)", [(1, 1), (2, 2), (3, 3), (50, 0)])
    con.commit()
    con.close()
    return w


def observe(d):
    try:
        text = open(os.path.join(d, "log.json"), encoding="utf-8").read()
        log = [(r["n"], r["v"]) for r in json.loads(text)] if text.strip() else []
    except FileNotFoundError:
        log = []
    con = sqlite3.connect(os.path.join(d, "d22.db"))
    ids = sorted(r[0] for r in con.execute("select id from t"))
    con.close()
    return {"log": log, "db": ids, "never": os.path.exists(os.path.join(d, "never.json"))}


def expected(case, effects):
    log, db, prints = [], [1, 2, 3, 50], []
    if case["init"]:
        log.append((0, "init"))
    for e in effects:
        if e[0] == "log":
            log.append((e[1], e[2]))
        elif e[0] == "db":
            db.append(e[1])
        elif e[0] == "del":
            db.remove(e[1]) if e[1] in db else None
        else:
            prints.append(e[1])
    return {"log": log, "db": sorted(db), "never": False}, prints


def run(case, obs):
    root = os.getcwd()
    d, d2 = os.path.join(root, "w22"), os.path.join(root, "w22api")
    home = os.path.join(root, "home22")
    os.makedirs(home, exist_ok=True)
    env = {"SYNCANY_HOME": home, "HOME": home, "COLUMNS": "120"}
    w = build(case, d)
    mode = case["mode"]
    script = case["sep"].join(case["parts"]) + case["tail"]
    params = [raw for raw, _ in case["params"].values()]
    args, tty, stdin_text = list(params), False, ""
    effects = [e for es in case["effects"][:case["done"]] for e in es]
    fails = case["fail"] is not None
    init_fails = case["init"] and case["initfail"]
    if mode == "signal":
        return signals(case, obs, d, w, env)
    if mode in ("file", "tty"):
        name = case["name"]
        args = [name] + params
        if case["filefail"] == "missing":
            pass
        elif case["filefail"] == "dir":
            os.makedirs(os.path.join(d, name))
        elif case["filefail"] == "directory":
            args[0] = "nodir/" + name
        elif case["filefail"] == "bytes":
            open(os.path.join(d, name), "wb").write(script.encode() + b";\n-- \xff\xfe\n")
        else:
            w(name, ("\ufeff" if case["bom"] else "") + script)
        if case["filefail"]:
            fails, effects = True, []
        tty = mode == "tty"
        stdin_text = {"null": "", "pipe": "hello", "pipe_sql": "insert into `never.json` select 1 as a;"}[case["stdin"]]
        if stdin_text and not tty:
            obs.hit("stdin_ignored")
    elif mode == "pipe":
        stdin_text = script
        if case["quoted"] and not any(q in script for q in (case["quoted"],)) and not fails:
            stdin_text = case["quoted"] + script + case["quoted"]
            obs.hit("quoted_pipe")
        if case["extra_arg"] == "txt":
            w("arg.txt", "insert into `never.json` select 1 as a;")
            args = ["arg.txt"] + args
        stdin_text += "\n"
    elif mode == "prql":
        args = ["q22.prql"] + params
        k = 900000000 + case["prql_gt"]
        w("q22.prql", "from `in22.json`\nfilter id > %d\nselect {id, s}\n" % k)
        effects = [("print", 900000000 + j) for j in range(1, 6) if 900000000 + j > k]
    else:
        args = [case["refname"]] + params
        if "missing" not in case["refname"]:
            w(case["refname"], script)
        tty, fails, effects = True, True, []
    if init_fails:
        fails = True
        effects = []
    # the run
    real = case["real"] and not tty
    out = open(os.path.join(root, "out22"), "w+b")
    errf = open(os.path.join(root, "err22"), "w+b")
    if real:
        obs.hit("real_process")
        repo = os.environ.get("VERIF_REPO", "/repo")
        cmd = [sys.executable, "-m", "syncanysql.main"] if case["i"] % 80 == 3 else [sys.executable, os.path.join(repo, "bin", "syncany-sql")]
        if cmd[-1].endswith("syncany-sql"):
            obs.hit("prog_name")
        p = subprocess.run(cmd + args, cwd=d, env={**os.environ, **env, "PYTHONPATH": repo}, input=stdin_text.encode(), stdout=out, stderr=errf, timeout=110)
        code = p.returncode
    else:
        if tty:
            master, slave = pty.openpty()
            fd0 = slave
        else:
            inp = open(os.path.join(root, "in22"), "w+b")
            inp.write(stdin_text.encode())
            inp.seek(0)
            if case["stdin"] == "pipe" and len(stdin_text.encode()) < 60000:
                r, wr = os.pipe()
                os.write(wr, stdin_text.encode())
                os.close(wr)
                fd0 = r
            else:
                fd0 = os.dup(inp.fileno())
            inp.close()
        pid = child(["syncany-sql"] + args, d, [fd0, out.fileno(), errf.fileno()], env)
        code = wait(pid)
        os.close(fd0)
        if tty:
            os.close(master)
    out.seek(0)
    errf.seek(0)
    printed, err = out.read().decode("utf-8", "replace"), errf.read().decode("utf-8", "replace")
    out.close()
    errf.close()
    ctx = dict(args=args, mode=mode, script=script[:1500], stdin=stdin_text[:200], subs={k: v[:300] for k, v in case["subs"].items()}, stderr=err[-300:])
    obs.hit("runs")
    obs.hit("mode:" + mode)
    obs.nontrivial(mode, script, repr(args), case["stdin"])
    for raw, val in case["params"].values():
        obs.hit("params")
        obs.hit("param_flag", val is True)
        obs.hit("param_quoted", raw.partition("=")[2][:1] in ("'", '"') and raw[-1] in ("'", '"'))
    if mode in ("file", "tty", "pipe"):
        for k in case["kinds"]:
            obs.hit({"print": "printed", "db": "db", "dbdel": "db", "subfile": "subfile"}.get(k, "appended"))
        obs.hit("comments", "x;" in case["sep"] or "comment" in case["sep"])
    obs.hit("init", case["init"])
    if init_fails:
        obs.hit("fail:init")
    elif fails and mode != "refused":
        obs.hit("fail:" + ("file" if case["filefail"] else {"subrun": "run", "subcompile": "compile"}.get(case["fail"], case["fail"])))
        obs.hit("effects_before_failure", bool(effects))
    obs.hit("failed" if fails else "exit0")
    if code == "hang":
        return obs.fail("hang", "the command did not end in 100 s", **ctx)
    if (code != 0) != fails or not isinstance(code, int):
        return obs.fail("exit", "exit status %r, but the script %s" % (code, "fails" if fails else "succeeds"), **ctx)
    want, prints = expected(case, effects)
    if mode == "refused":
        want["log"] = []         # refused before anything is executed
    if init_fails:
        want["log"] = [(0, "init")] if mode != "refused" else []
    got = observe(d)
    bad = {k: (got[k], want[k]) for k in got if got[k] != want[k]}
    if bad:
        return obs.fail("effects", "; ".join("%s is %r, should be %r" % (k, g, x) for k, (g, x) in bad.items())[:800], **ctx)
    seen = [int(x) for x in re.findall(r"\b9\d{8}\b", printed)]
    if seen != prints:
        return obs.fail("printed", "printed rows %r, should be %r" % (seen, prints), **ctx)
    # the embedding API
    if mode in ("file", "pipe", "tty") and not case["filefail"] and case["i"] % 2:
        obs.hit("api")
        build(case, d2)
        o2, e2 = open(os.path.join(root, "out22b"), "w+b"), open(os.path.join(root, "err22b"), "w+b")
        null = os.open("/dev/null", os.O_RDONLY)
        pid = child(["program"] + params, d2, [null, o2.fileno(), e2.fileno()], env, api=script)
        code2 = wait(pid)
        os.close(null)
        o2.seek(0)
        printed2 = o2.read().decode("utf-8", "replace")
        o2.close()
        e2.close()
        got2 = observe(d2)
        seen2 = [int(x) for x in re.findall(r"\b9\d{8}\b", printed2)]
        if (code2 != 0) != (code != 0) or got2 != got or seen2 != seen:
            return obs.fail("api", "the embedding API gives %r %r %r, the command %r %r %r" % (code2, got2, seen2, code, got, seen), **ctx)
    obs.sample({"args": args, "mode": mode, "script": script[:300], "code": code, "log": got["log"][:5]})


def signals(case, obs, d, w, env):
    """A signal while a statement runs: the command fails, nothing after that statement runs, what was completed before stays."""
    stmts = ["use `u22`", "insert into `log.json` select 1 as n, 'before' as v", "insert into `sig.json` select u22$hold(id) as a from `in22.json`"]
    after = ["insert into `log.json` select 2 as n, 'after' as v", "select 900000001 as late"]
    if case["sigbatch"]:
        stmts.insert(0, "set @batch = 1")
    if case["sigsub"]:
        w("sigsub.sql", ";\n".join(stmts + after))
        script = ";\n".join(["execute `sigsub.sql`"] + after)
    else:
        script = ";\n".join(stmts + after)
    root = os.path.dirname(d)
    w("sig22.sql", script)
    if case["init"] and case["initfail"]:
        os.remove(os.path.join(d, "config.json"))
    init = case["init"] and not case["initfail"]
    out, errf = open(os.path.join(root, "out22"), "w+b"), open(os.path.join(root, "err22"), "w+b")
    pipe = case["stdin"] != "null"
    inp = open(os.path.join(root, "in22"), "w+b")
    inp.write(script.encode() if pipe else b"")
    inp.seek(0)
    pid = child(["syncany-sql"] + ([] if pipe else ["sig22.sql"]), d, [inp.fileno(), out.fileno(), errf.fileno()], env)
    inp.close()
    end = time.time() + 60
    started = os.path.join(d, "started22")
    while not os.path.exists(started) and time.time() < end:
        time.sleep(0.005)
    time.sleep(0.02)
    os.kill(pid, getattr(signal, "SIG" + case["signal"]))
    time.sleep(0.05)
    w("go22", "")
    code = wait(pid)
    out.seek(0)
    printed = out.read().decode("utf-8", "replace")
    errf.seek(0)
    err = errf.read().decode("utf-8", "replace")
    out.close()
    errf.close()
    obs.hit("runs")
    obs.hit("signal")
    obs.hit("failed")
    obs.nontrivial("signal", case["signal"], case["sigbatch"], case["sigsub"], pipe)
    got = observe(d)
    ctx = dict(signal=case["signal"], script=script, code=code, stderr=err[-300:], pipe=pipe)
    if not os.path.exists(started):
        return obs.fail("effects", "the script did not reach its statement", **ctx)
    if code != 130:
        return obs.fail("exit", "a run ended by SIG%s has exit status %r" % (case["signal"], code), **ctx)
    if got["log"] != ([(0, "init")] if init else []) + [(1, "before")] or re.search(r"\b900000001\b", printed):
        return obs.fail("effects", "after SIG%s the log is %r and the output %r" % (case["signal"], got["log"], printed[-200:]), **ctx)
