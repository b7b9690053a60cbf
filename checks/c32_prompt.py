"""C32: the interactive prompt runs what was typed, once, survives errors and remembers it."""
import contextlib, io, json, os, pty, re, shutil, subprocess, sys, threading, time, tty

from vlib import eng

META = {
    "id": "C32", "sizes": {"quick": 900, "thorough": 16000}, "probes": True, "chunk": 20,
    "rule": "key strokes of generated sessions (typed and pasted texts of 1-3 statements over several lines, with quotes, comments and semicolons in both, failing and interrupted statements, abandoned lines, %cd, ! commands, exit in several spellings, end of input) were fed to the real prompt; rows written, errors printed, commands recorded, working directory and the history file were compared with the model",
    "required": {"texts": 3000, "multi_line": 2000, "multi_statement": 800, "pasted": 400, "fail:compile": 300, "fail:run": 200, "interrupted": 100, "abandoned": 200, "cd": 100, "system": 100, "exit": 400, "eof": 100,
                 "second_session": 200, "history_entries": 5000, "history_cut": 50, "used_variable": 80, "file": 200, "cwd_variable": 100, "open_after_semicolon": 500, "probes": 3},
    "technique": "runtime monitoring: scripted key strokes through prompt_toolkit's own input pipe, effects (rows, errors, recorded system commands, cwd, history file) against a model of the session",
    "level": "exercised",
    "note": "System commands are replaced by a recorder. Printed result tables are C22's. Keys that edit the line (cursor movement, completion menus) are prompt_toolkit's own and not generated; recalling the last entry is a probe.",
}

# a literal and its value; line breaks are typed with Enter
LITS = [("'plain'", "plain"), ("'a;b'", "a;b"), ("'it''s; ok'", "it's; ok"), ('"dq; -- x"', "dq; -- x"), ("'# no'", "# no"), ("'/* no; */'", "/* no; */"), ("'two\nlines'", "two\nlines"), ("'semi;\n;line'", "semi;\n;line"),
        ("'q\"q'", 'q"q'), ('"s\'s;"', "s's;"), ("'back\\'s;'", "back's;"), ("'é漢'", "é漢"), ("''", ""), ("'-- x\n'", "-- x\n"), ("'exit'", "exit"), ("'!x'", "!x"), ("'%cd x'", "%cd x")]
BEFORE = ["\n", "\n", "\n  ", " -- note\n", " -- it's; \"x\n", " # half; `q\n", " /* ; ' */ ", " /* a\nb; */\n", "\n\n"]
AFTER = [" /* ; ' */ ", " /* x\n; y */ ", "  "]


def lay(rng, tokens, closed, pasted):
    """Tokens joined by blanks, comments and line breaks; closed: a statement of this text has ended already."""
    out = tokens[0]
    for t in tokens[1:]:
        r = rng.random()
        if r < 0.72:
            out += " "
        elif closed and not pasted:
            out += rng.choice(AFTER)
        else:
            out += rng.choice([b for b in BEFORE if pasted or b != "\n  "])  # Enter repeats the indentation of a typed line
        out += t
    return out


def text(rng, st):
    """One text: statements and what they do."""
    n = rng.choice([1, 1, 1, 2, 2, 3])
    pasted = rng.random() < 0.15
    fail = rng.choice(["compile", "run", "kbd"]) if rng.random() < 0.25 else None
    pos = rng.randrange(n) if fail else None
    out, effects, closed, opened = "", [], False, False
    if rng.random() < 0.1:
        out = rng.choice(["/* first; */ ", "-- it's first;\n", "  " if pasted else "", "# a `b;\n"])
    for j in range(n):
        st["n"] += 1
        k = st["n"]
        lit, val = rng.choice(LITS)
        if j == pos:
            toks, eff = {"compile": lambda: (rng.choice([["selec", str(k)], ["insert", "into", "`log`", "select", "bogus32(1)", "as", "n"], ["select", "(1", "as", "x"], ["select", "id", "from", "from", "t"]]), ("compile",)),
                         "run": lambda: (["insert", "into", "`%s`" % rng.choice(["dir32.json", "dir32.csv"]), "select", str(k), "as", "n"], ("run",)),
                         "kbd": lambda: (["insert", "into", "`log`", "select", "boom32(%d)" % k, "as", "n,", "'k'", "as", "s"], ("kbd",))}[fail]()
        elif rng.random() < 0.12 and fail is None:
            v = "v%d" % k
            toks, eff = rng.choice([(["set", "@%s" % v, "=", str(k)], ("set", v, k)), (["select", str(k), "into", "@%s" % v], ("set", v, k)), (["select", str(k), "as", "x", "into", "@%s" % v], ("set", v, k))])
            st["vars"].append(v)
        elif rng.random() < 0.08 and fail is None:
            toks, eff = ["insert", "into", "`f%d.json`" % k, "select", str(k), "as", "n"], ("file", k)
        elif rng.random() < 0.06 and fail is None:
            toks, eff = ["insert", "into", "`log`", "select", str(k), "as", "n,", "@cwd", "as", "s"], ("cwd", k)
        elif rng.random() < 0.15 and st["vars"] and fail is None:
            v = rng.choice(st["vars"])
            toks, eff = ["insert", "into", "`log`", "select", str(k), "as", "n,", "@%s" % v, "as", "s"], ("use", k, v)
        else:
            toks, eff = ["insert", "into", "`log`", "select", str(k), "as", "n,", lit, "as", "s"], ("ins", k, val)
        body = lay(rng, toks, closed, pasted)
        opened |= closed and "\n" in body and not pasted
        out += body
        if j < n - 1 or not closed or rng.random() < 0.7:
            out += rng.choice(["", "", " "] + ([] if closed else ["\n"])) + ";"
            closed = True
        if j < n - 1:
            out += rng.choice([" ", "", "  "]) if not pasted else rng.choice(["\n", " ", "\n-- it's\n"])
        effects.append(eff)
    if rng.random() < 0.1 and out.endswith(";"):
        out += rng.choice([" -- done, isn't it", " # `", ";", " /* x */"])
    return {"kind": "text", "text": out, "effects": effects, "fail": fail, "pos": pos, "pasted": pasted, "n": n, "opened": opened}


def make(rng, i, tier):
    st = {"n": 0, "vars": []}
    sessions = []
    for s in range(rng.choice([1, 1, 2])):
        steps = []
        st["vars"] = []
        for _ in range(rng.randint(2, 9)):
            r = rng.random()
            if r < 0.74:
                steps.append(text(rng, st))
            elif r < 0.80:
                steps.append({"kind": "blank", "text": rng.choice(["", "", "  "])})
            elif r < 0.88:
                t = text(rng, dict(st, n=5000))
                t = t["text"]
                cut = t.split(";")[0]
                steps.append({"kind": "abandon", "text": rng.choice([cut, cut[:8], "insert into `log` select 9999 as n, 'x' as s", "'never closed;\nx", "/* never; closed", "insert into `log` select 9999 as n;" if rng.random() < 0.5 else "!rm x", "exit now"])})
            elif r < 0.93:
                steps.append({"kind": "cd", "text": rng.choice(["%cd d1", "%CD ..", "%cd d2", "%cd .", "%cd nosuch32", "%pwd"])})
            elif r < 0.97:
                steps.append({"kind": "system", "text": "!" + rng.choice(["echo hi", "ls -l", "echo 'a;b'", "git status; true"])})
            else:
                steps.append({"kind": "exit", "text": rng.choice(["exit", "EXIT", "Exit", "exit;", "exit()", "exit ", "EXIT;"])})
        if rng.random() < 0.6 and not any(x["kind"] == "exit" for x in steps):
            steps.append({"kind": "exit", "text": rng.choice(["exit", "EXIT", "Exit", "exit;"])})
            if rng.random() < 0.5:  # nothing typed after it runs
                if rng.random() < 0.5:
                    steps.append({"kind": "abandon", "text": ""})
                steps.append(text(rng, st))
        sessions.append(steps)
    pre = 0
    if rng.random() < 0.12:
        pre = rng.choice([1, 3, 49, 50, 51, 60, 75])
    return {"sessions": sessions, "pre": pre}


def boom(x):
    raise KeyboardInterrupt()


def entries(path):
    """The texts of a prompt_toolkit history file."""
    out, cur = [], None
    if os.path.exists(path):
        for line in open(path, "rb").read().decode("utf-8").split("\n"):
            if line.startswith("+"):
                cur = line[1:] if cur is None else cur + "\n" + line[1:]
            elif cur is not None:
                out.append(cur)
                cur = None
    return out if cur is None else out + [cur]


def keys(step):
    t = step["text"]
    if step["kind"] == "abandon":
        return t.replace("\n", "\r") + "\x03"
    if step.get("pasted"):
        return "\x1b[200~" + t + "\x1b[201~\r"
    return t.replace("\n", "\r") + "\r"


def prompt(e, text_keys, late=None):
    """Runs the real prompt over the keys; returns what it printed."""
    from prompt_toolkit.application import create_app_session
    from prompt_toolkit.input import create_pipe_input
    from prompt_toolkit.output import DummyOutput
    from syncanysql import prompt as P
    out, system, real = io.StringIO(), [], os.system
    timers = []
    try:
        os.system = lambda cmd: system.append(cmd) or 0
        with create_pipe_input() as inp, create_app_session(input=inp, output=DummyOutput()):
            inp.send_text(text_keys)
            for delay, k in late or []:
                t = threading.Timer(delay, inp.send_text, [k])
                t.start()
                timers.append(t)
            with contextlib.redirect_stdout(out), e.executor:
                P.CliPrompt(e.manager, e.executor.session_config, e.executor).run()
    finally:
        os.system = real
        for t in timers:
            t.join()
    return out.getvalue(), system


def run(case, obs):
    from syncanysql.executor import Executor
    cwd = os.getcwd()
    top = os.path.join(cwd, "c32")
    root = os.path.join(top, "a/b/c/d/e/f/g/h/i/w")
    home = os.path.join(root, "home")
    shutil.rmtree(top, ignore_errors=True)
    for d in ("home", "d1", "d2", "dir32.json", "dir32.csv", "d1/dir32.json", "d1/dir32.csv", "d2/dir32.json", "d2/dir32.csv", "d1/d1/dir32.json", "d1/d1/dir32.csv", "d1/d2/dir32.json", "d1/d2/dir32.csv"):
        os.makedirs(os.path.join(root, d))
    up = root
    while up != top:  # %cd .. stays inside; writing to a directory fails wherever the session is
        up = os.path.dirname(up)
        os.makedirs(os.path.join(up, "dir32.json"))
        os.makedirs(os.path.join(up, "dir32.csv"))
    old = os.environ.get("SYNCANY_HOME")
    os.environ["SYNCANY_HOME"] = home
    try:
        session(case, obs, root, home)
    finally:
        os.chdir(cwd)
        os.environ.pop("SYNCANY_HOME") if old is None else os.environ.__setitem__("SYNCANY_HOME", old)
        if Executor.global_env_variables:
            Executor.global_env_variables["cwd"] = cwd
        shutil.rmtree(top, ignore_errors=True)


def session(case, obs, root, home):
    from syncanysql.executor import Executor
    hist = []
    path = os.path.join(home, "history")
    if case["pre"]:
        hist = ["select %d as é;" % (k % 35) if k % 5 else "select %d\n  as x;\n-- ö" % k for k in range(case["pre"])]
        with open(path, "w", encoding="utf-8") as fp:
            for k, h in enumerate(hist):
                fp.write("\n# 2023-01-02 03:04:%02d.000000\n" % (k % 60) + "".join("+%s\n" % x for x in h.split("\n")))
    for num, steps in enumerate(case["sessions"]):
        os.chdir(root)
        e = eng.engine({"t": [{"id": 1}]})
        Executor.global_env_variables["cwd"] = root  # what a new process starts with
        e.use("boom32", boom)
        log, errors, system, var, ended, where, files = [], 0, [], {}, False, root, {}
        given = "".join(keys(s) for s in steps)
        for s in steps:
            k = s["kind"]
            if k == "abandon":
                obs.hit("abandoned")
                continue
            if ended:
                continue
            if s["text"].strip() and k != "exit":
                if not hist or hist[-1] != s["text"]:
                    hist.append(s["text"])
            if k == "text":
                obs.hit("texts")
                obs.hit("multi_line", "\n" in s["text"])
                obs.hit("multi_statement", s["n"] > 1)
                obs.hit("pasted", s["pasted"])
                obs.hit("open_after_semicolon", s["opened"])
                if s["fail"] == "compile":
                    obs.hit("fail:compile")
                    errors += 1
                    continue
                for eff in s["effects"]:
                    if eff[0] == "ins":
                        log.append({"n": eff[1], "s": eff[2]})
                    elif eff[0] == "file":
                        obs.hit("file")
                        files[os.path.join(where, "f%d.json" % eff[1])] = eff[1]
                    elif eff[0] == "cwd":
                        obs.hit("cwd_variable")
                        log.append({"n": eff[1], "s": where})
                    elif eff[0] == "set":
                        var[eff[1]] = eff[2]
                    elif eff[0] == "use":
                        obs.hit("used_variable")
                        log.append({"n": eff[1], "s": var.get(eff[2])})
                    elif eff[0] == "run":
                        obs.hit("fail:run")
                        errors += 1
                        break
                    else:
                        obs.hit("interrupted")
                        break
            elif k == "cd":
                obs.hit("cd")
                if s["text"][:3].lower() == "%cd":
                    to = os.path.normpath(os.path.join(where, s["text"][4:]))
                    if os.path.isdir(to):
                        where = to
                    else:
                        errors += 1
            elif k == "system":
                obs.hit("system")
                system.append(s["text"][1:])
            elif k == "exit":
                obs.hit("exit")
                ended = True
        obs.hit("eof", not ended)
        obs.hit("second_session", num)
        printed, ran = prompt(e, given + "\x03\x04")
        at = os.getcwd()
        got = [r for r in eng.memory_tables(e).get("--.log", [])]
        detail = dict(steps=[(s["kind"], s["text"]) for s in steps], session=num, printed=printed[-600:])
        if not eng.same_rows(got, log):
            return obs.fail("rows", "the session wrote %r, expected %r" % ([tuple(r.values()) for r in got][-6:], [tuple(r.values()) for r in log][-6:]), **detail)
        shown = [x for x in printed.split("\n") if re.match(r"[A-Za-z]\w*(Error|Exception): ", x)]
        if len(shown) != errors:
            return obs.fail("errors", "%d errors were printed, expected %d" % (len(shown), errors), **detail)
        if ran != system:
            return obs.fail("system", "system commands %r, expected %r" % (ran, system), **detail)
        if os.path.realpath(at) != os.path.realpath(where):
            return obs.fail("cd", "the working directory is %r, expected %r" % (os.path.relpath(at, root), os.path.relpath(where, root)), **detail)
        for name, k in files.items():
            have = json.load(open(name)) if os.path.exists(name) else None
            if have != [{"n": k}]:
                return obs.fail("file", "%s holds %r, expected n = %d" % (os.path.relpath(name, root), have, k), **detail)
        if list(e.executor.runners):
            return obs.fail("queue", "statements stay queued", **detail)
        for v, x in var.items():
            if e.get_variable(v) != x:
                return obs.fail("variables", "@%s is %r, expected %r" % (v, e.get_variable(v), x), **detail)
        raw = entries(path)
        file = [x for x in raw if x.strip()]
        obs.hit("history_entries", len(file))
        obs.hit("history_cut", len(file) < len(hist))
        if file != hist[len(hist) - len(file):] or len(raw) < min(50, len(hist)):
            return obs.fail("history", "history ends with %r, expected %r (%d of %d)" % (file[-4:], hist[-4:], len(file), len(hist)), **detail)
        obs.nontrivial(given)
        obs.sample({"keys": given[:400], "rows": len(log), "errors": errors})


def probes(obs):
    """The last text of an earlier session is recalled with the up key; the real command in a terminal."""
    base = os.getcwd()
    home = os.path.join(base, "home32")
    shutil.rmtree(home, ignore_errors=True)
    os.makedirs(home)
    old = os.environ.get("SYNCANY_HOME")
    os.environ["SYNCANY_HOME"] = home
    try:
        prompt(eng.engine(), "insert into `log`\rselect 7 as n;\rexit\r")
        for delay in (0.3, 1, 3, 8):
            e = eng.engine()
            prompt(e, "", [(delay, "\x1b[A\r"), (delay * 2, "\x03\x04")])
            got = eng.memory_tables(e).get("--.log", [])
            if got:
                break
        obs.hit("probes")
        if not eng.same_rows(got, [{"n": 7}]):
            obs.fail("history", "the up key and Enter in a new session wrote %r, the last text of the session before writes [{'n': 7}]" % (got,))
    finally:
        os.environ.pop("SYNCANY_HOME") if old is None else os.environ.__setitem__("SYNCANY_HOME", old)
        shutil.rmtree(home, ignore_errors=True)
    from vlib import harness
    for end in ("exit\r", "\x04"):
        d = os.path.join(base, "tty32")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        master, slave = pty.openpty()
        tty.setraw(slave)  # keys typed while no prompt is shown arrive unchanged
        env = {k: v for k, v in os.environ.items() if k not in ("SYNCANY_HOME",)}
        env.update(HOME=d, PYTHONPATH=harness.REPO, TERM="dumb", SYNCANY_HOME=os.path.join(d, "h"), PROMPT_TOOLKIT_NO_CPR="1")
        p = subprocess.Popen([sys.executable, "-m", "syncanysql.main"], cwd=d, env=env, stdin=slave, stdout=slave, stderr=slave, start_new_session=True)
        os.close(slave)
        seen = []

        def drain():
            with contextlib.suppress(OSError):
                while True:
                    seen.append(os.read(master, 4096))
        t = threading.Thread(target=drain, daemon=True)
        t.start()
        limit = time.time() + 30
        while time.time() < limit and b"engine" not in b"".join(seen):
            time.sleep(0.05)
        os.write(master, ("insert into `o.json` select 1 as a;\rselec 4;\rinsert into `p.json`\rselect 2 as a;\r" + end).encode())
        try:
            code = p.wait(45)
        except subprocess.TimeoutExpired:
            p.kill()
            code = "running"
        t.join(5)
        os.close(master)
        have = {f: open(os.path.join(d, f)).read() if os.path.exists(os.path.join(d, f)) else None for f in ("o.json", "p.json")}
        obs.hit("probes")
        if code != 0 or not all(have.values()) or '"a": 1' not in have["o.json"] or '"a": 2' not in have["p.json"]:
            obs.fail("terminal", "the command in a terminal ended with %r and wrote %r" % (code, have), printed=b"".join(seen)[-600:].decode("utf-8", "replace"), end=end)
        shutil.rmtree(d, ignore_errors=True)
