"""C21: configuration layers merge predictably and never leak upward.

A case writes home / working-directory config files (JSON and YAML) with chains of `extends`, gives the engine a config dict, then runs
SET / USE / use() statements on the engine's session, on its contexts, in executed files and globally. A model keeps the layers apart
and computes the effective settings by walking them; after every step the effective configuration of every session is compared with it,
and queries observe it (database reached, view answered, import called, dates formatted). The caller's dict and the defaults of a fresh
engine must stay as they were.
"""
import copy, datetime, json, os, sqlite3, sys
import yaml
from vlib import eng

META = {
    "id": "C21", "probes": True, "sizes": {"quick": 2200, "thorough": 20000}, "chunk": 10,
    "rule": "after every step the effective settings of every session equal those computed from the separate layers, and queries observe them",
    "required": {"engines": 1200, "layers>=3": 600, "steps": 8000, "compared": 20000, "extends": 800, "extends_str": 150, "extends_nested": 200, "yaml": 600, "view_merge": 200, "db_merge": 600, "executes": 300, "set:engine": 1200, "set:context": 2000, "set:global": 600, "set:file": 500,
                 "unset": 900, "unset_parent_key": 150, "ran:view": 1500, "ran:db": 1500, "ran:import": 1200, "ran:format": 1500, "ran:missing": 800, "same_script": 300, "fresh": 1200, "caller": 5000, "use": 300, "override": 800, "default_home": 200},
    "technique": "independent layer-by-layer model of the effective settings as oracle, compared with the sessions' configuration and with query behaviour after each step",
    "note": "Between the two files of one directory the order (JSON first) is the one observed, not documented. A field-wise change of a view defined by an outer layer is not generated.",
}
NDB, NMOD = 4, 4
SCALARS = ("date_format", "datetime_format", "time_format", "note")
DICTS = ("options", "variables", "defines", "sources", "arguments")
FORMATS = {"date_format": ["%d.%m.%Y", "%Y/%m/%d", "%m-%d-%y", "D%Y"], "datetime_format": ["%d.%m.%Y %H", "%Y/%m/%d %H:%M", "T%H%M%S", "%Y"], "time_format": ["%H", "%H.%M", "%M:%S"]}


def init_worker(scratch):
    os.makedirs("mods21", exist_ok=True)
    for n in range(NMOD):
        open("mods21/m21_%d.py" % n, "w").write("def tag():\n    return %d\n" % (1000 + n))
    for n in range(NDB):
        con = sqlite3.connect("p21_%d.db" % n)
        con.execute("create table v (m int, k int)")
        con.executemany("insert into v values (?,?)", [(100 * n + j, j) for j in range(3)])
        con.commit()
        con.close()
    sys.path.insert(0, os.path.abspath("mods21"))


def view(rng, name):
    x, k = rng.randint(1, 900), rng.randint(0, 2)
    if rng.random() < 0.5:
        return {"name": name, "query": "select m + %d as m, k from v where k = %d" % (x, k), "args": []}
    return {"name": name, "query": "select m + %d as m, k from v where k = %%s" % x, "args": [["k", "==", k]]}


def database(rng, name, root, partial, fixed):
    if name == "js":
        d = {"name": name, "driver": "json"}
        for k in ("encoding", "date_format", "datetime_format", "time_format"):
            if rng.random() < 0.3:
                d[k] = "utf-8" if k == "encoding" else rng.choice(FORMATS[k])
        return d
    d = {"name": name}
    if not partial or rng.random() < 0.5:
        d.update(driver="sqlite", database=os.path.join(root, "p21_%d.db" % (["da", "db"].index(name) if fixed else rng.randrange(NDB))))
    if rng.random() < 0.5 or len(d) == 1:
        d["virtual_views"] = [view(rng, v) for v in rng.sample(["va", "vb", "vc"], rng.randint(1, 3))]
    if rng.random() < 0.3:
        d["timeout"] = rng.choice([5, 6, 7])
    return d


def layer(rng, root, known, lists, fixed):
    """One configuration dict; `known`: databases that an outer layer defines completely."""
    d = {}
    for k in SCALARS:
        if rng.random() < 0.3:
            d[k] = rng.choice(FORMATS.get(k, ["n1", "n2", 3, True, [1, 2], {"a": 1}, 0, ""]))
    if rng.random() < 0.15:
        d["encoding"] = "utf-8"
    for k in DICTS:
        if rng.random() < 0.25:
            d[k] = {n: rng.choice([1, "x", [1, 2], {"y": 1}, 0, None] if k != "sources" else ["a.json", "b.json"]) for n in rng.sample(["a", "b", "c"], rng.randint(1, 2))}
    if rng.random() < 0.5:
        d["imports"] = {n: "m21_%d" % rng.randrange(NMOD) for n in rng.sample(["ia", "ib", "ic"], rng.randint(1, 2))}
    if rng.random() < 0.7:
        d["databases"] = [database(rng, n, root, n in known, fixed) for n in rng.sample(["da", "db", "js"], rng.randint(1, 3))]
        known.update(x["name"] for x in d["databases"])
    if rng.random() < 0.25:
        d["caches"] = [{"name": n, "database": "--", "prefix": "x%d" % rng.randint(1, 9)} for n in rng.sample(["ca", "cb"], rng.randint(1, 2))]
    if lists and rng.random() < 0.5:
        d["states"] = [{"name": "s%d" % rng.randint(1, 9)} for _ in range(rng.randint(1, 2))]
    if lists and rng.random() < 0.5:
        d["pipelines"] = rng.choice([["p%d" % rng.randint(1, 9)], [["p%d" % rng.randint(1, 9), "q"], ["r"]]])
    return d


def make(rng, i, tier):
    seed = rng.random()
    names = []
    for n in ("home.json", "home.yaml", "cwd.json", "cwd.yaml"):
        if rng.random() < 0.4:
            names.append(n)
    steps = []
    ctxs = rng.randint(1, 3)
    for _ in range(rng.randint(4, 9)):
        where = rng.choice(["engine", "context", "context", "context", "global", "file"])
        tgt = rng.randrange(ctxs)
        sets = []
        for _ in range(rng.randint(1, 2)):
            x = rng.random()
            null = rng.random() < 0.3
            if x < 0.2:
                k = rng.choice(SCALARS)
                sets.append(("scalar", k, None if null else rng.choice(FORMATS.get(k, ["n3", 7, True, False, 1.5]))))
            elif x < 0.35:
                sets.append(("dict", rng.choice(["options", "variables", "defines"]), rng.choice("abcd"), None if null else rng.choice(["z", 4, False, '{"q": 1}', "[1, 2]"])))
            elif x < 0.42:
                sets.append(("dict", "sources", rng.choice("abc"), None if null else "c.json"))
            elif x < 0.6:
                sets.append(("import", rng.choice(["ia", "ib", "ic"]), None if null else rng.randrange(NMOD), rng.choice(["set", "use"])))
            elif x < 0.72:
                sets.append(("db", rng.choice(["da", "db"]), None if null else rng.randrange(NDB), rng.choice(["json", "json", "fields"])))
            elif x < 0.8:
                sets.append(("field", rng.choice(["da", "db", "js"]), rng.choice(["timeout", "timeout", "cached_statements"]), None if null else rng.choice([50, 5, 60])))
            else:
                sets.append(("view", rng.choice(["da", "db"]), rng.choice(["va", "vb", "vc"]), None if null else (rng.randint(1, 900), rng.randint(0, 2), rng.choice(["const", "arg"])), rng.choice(["set", "raw"])))
        probes = []
        for _ in range(2):
            probes.append(rng.choice([("format", rng.choice(["date", "datetime"])), ("import", rng.choice(["ia", "ib", "ic"])), ("db", rng.choice(["da", "db"])), ("view", rng.choice(["da", "db"]), rng.choice(["va", "vb", "vc"])), ("view", rng.choice(["da", "db"]), rng.choice(["va", "vb", "vc"]))]))
        steps.append({"where": where, "ctx": tgt, "sets": sets, "probes": probes, "probe_at": rng.choice(["same", "all", "same", "script"])})
    lists = rng.random() < 0.12       # states and pipelines are not valid here for queries, only their merging is looked at
    for s in steps if lists else ():
        s["probes"] = []
    fixed = rng.random() < 0.6        # every layer names the same file for a database (see the known finding database-pool-by-name)
    if fixed:
        for st in steps:
            st["sets"] = [("db", s[1], None if s[2] is None else ["da", "db"].index(s[1]), s[3]) if s[0] == "db" else s for s in st["sets"]]
    return {"fixed": fixed, "lists": lists, "seed": seed, "names": names, "ctxs": ctxs, "steps": steps, "i": i, "custom": rng.random() < 0.7, "default_home": rng.random() < 0.25, "executes": rng.random() < 0.4 and not lists}


# ---- model -----------------------------------------------------------------------------------------------------------------------------
LISTS = ("states", "executes")


def overlay(base, top):
    """Effective settings when `top` lies inside `base`."""
    out = dict(base)
    for k, v in top.items():
        if k in DICTS or k == "imports":
            out[k] = {**base.get(k, {}), **v}
        elif k in ("databases", "caches"):
            items = {d["name"]: d for d in base.get(k, [])}
            for d in v:
                old = items.get(d["name"], {})
                new = {**old, **d}
                views = {x["name"]: x for x in old.get("virtual_views", [])}
                views.update({x["name"]: x for x in d.get("virtual_views", [])})
                if views:
                    new["virtual_views"] = list(views.values())
                items[d["name"]] = new
            out[k] = list(items.values())
        elif k in LISTS:
            out[k] = list(base.get(k, [])) + list(v)
        elif k == "pipelines":
            out[k] = list(base.get(k, [])) + (list(v) if isinstance(v, list) and not isinstance(v[0], str) else [v])
        else:
            out[k] = v
    return out


def canon(c):
    out = {}
    for k in SCALARS + ("encoding",):
        if k in c:
            out[k] = repr(c[k])
    for k in DICTS:
        out[k] = {n: repr(v) for n, v in (c.get(k) or {}).items()}
    out["imports"] = {n: v if isinstance(v, str) else id(v) for n, v in (c.get("imports") or {}).items()}
    for k in ("databases", "caches"):
        ds = {}
        for d in c.get(k) or []:
            ds.setdefault(d["name"], []).append({n: ({v["name"]: (v["query"], [list(a) for a in v.get("args", [])]) for v in x} if n == "virtual_views" else repr(x)) for n, x in d.items() if not (n == "virtual_views" and not x)})
        out[k] = ds
    out["states"] = [repr(s) for s in c.get("states") or []]
    out["pipelines"] = [repr(p) for p in c.get("pipelines") or []]
    return out


def drop_db(layer_, name):
    layer_["databases"] = [d for d in layer_.get("databases", []) if d["name"] != name]


def own_db(layer_, name):
    for d in layer_.setdefault("databases", []):
        if d["name"] == name:
            return d
    d = {"name": name}
    layer_["databases"].append(d)
    return d


def jsonish(v):
    try:
        return json.loads(v)
    except Exception:
        return v


def sql_value(v):
    if v is None:
        return "null"
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float)):
        return repr(v)
    return "'''" + v + "'''"


def apply(obs, layer_, outer, s, root, glob, raw_ok):
    """Changes the model's layer; returns the SQL statement (or None)."""
    g = "global " if glob else ""
    if s[-1] is None or (s[0] in ("import", "db") and s[2] is None) or (s[0] in ("dict", "field", "view") and s[3] is None):
        obs.hit("unset")
    if s[0] == "scalar":
        if s[2] is None:
            if s[1] in outer and s[1] not in layer_:
                obs.hit("unset_parent_key")
            layer_.pop(s[1], None)
        else:
            if s[1] in outer:
                obs.hit("override")
            layer_[s[1]] = s[2]
        return "set %s@config.%s = %s" % (g, s[1], sql_value(s[2]))
    if s[0] == "dict":
        d = layer_.setdefault(s[1], {})
        if s[3] is None:
            d.pop(s[2], None)
        else:
            d[s[2]] = s[3] if s[1] == "sources" else jsonish(s[3])
        return "set %s@%s%s.%s = %s" % (g, "config." if (len(s[2]) + len(str(s[3]))) % 2 else "", s[1], s[2], sql_value(s[3]))
    if s[0] == "import":
        d = layer_.setdefault("imports", {})
        if s[2] is None:
            d.pop(s[1], None)
            return "set %s@config.imports.%s = null" % (g, s[1])
        d[s[1]] = "m21_%d" % s[2]
        if s[3] == "use" and not glob:
            obs.hit("use")
            return "use `m21_%d as %s`" % (s[2], s[1])
        return "set %s@config.imports.%s = 'm21_%d'" % (g, s[1], s[2])
    if s[0] == "db":
        if s[2] is None:
            drop_db(layer_, s[1])
            return "set %s@config.databases.%s = null" % (g, s[1])
        path = os.path.join(root, "p21_%d.db" % s[2])
        d = own_db(layer_, s[1])
        if s[3] == "fields":
            d.update(driver="sqlite", database=path)
            return "set %s@config.databases.%s.driver = 'sqlite'; set %s@config.databases.%s.database = '%s'" % (g, s[1], g, s[1], path)
        d.clear()
        d.update(name=s[1], driver="sqlite", database=path)
        return "set %s@databases.%s = '%s'" % (g, s[1], json.dumps({"driver": "sqlite", "database": path}))
    if s[0] == "field":
        d = own_db(layer_, s[1])
        if s[3] is None:
            d.pop(s[2], None)
        else:
            d[s[2]] = jsonish(s[3])
        return "set %s@config.databases.%s.%s = %s" % (g, s[1], s[2], sql_value(s[3]))
    d = own_db(layer_, s[1])
    views = [v for v in d.get("virtual_views", []) if v["name"] != s[2]]
    if s[3] is None:
        d["virtual_views"] = views
        return "set %s@config.databases.%s.virtual_views.%s = null" % (g, s[1], s[2])
    x, k, form = s[3]
    q = "select m + %d as m, k from v where k = " % x
    d["virtual_views"] = views + [{"name": s[2], "query": q + (str(k) if form == "const" else "%s"), "args": [] if form == "const" else [["k", "==", k]]}]
    text = q + (str(k) if form == "const" else "#{k:%d}" % k)
    return "set %s@config.databases.%s.virtual_views.%s = '''%s'''" % (g, s[1], s[2], text)


def expect(eff, p, pool=None):
    """What a query about `p` must answer under the settings `eff`; None: it fails. `pool`: files first reached under each database name."""
    if p[0] == "format":
        return datetime.date(2023, 4, 5).strftime(eff.get("date_format", "%Y-%m-%d")) if p[1] == "date" else datetime.datetime(2023, 4, 5, 6, 7, 8).strftime(eff.get("datetime_format", "%Y-%m-%d %H:%M:%S"))
    if p[0] == "import":
        m = eff.get("imports", {}).get(p[1])
        return None if m is None else 1000 + int(m[4:])
    d = [x for x in eff.get("databases", []) if x["name"] == p[1]]
    if not d or "database" not in d[0]:
        return None
    n = int((d[0]["database"] if pool is None else pool.setdefault(p[1], d[0]["database"]))[:-3].rpartition("_")[2])
    if p[0] == "db":
        return sum(100 * n + j for j in range(3))
    v = [x for x in d[0].get("virtual_views", []) if x["name"] == p[2]]
    if not v:
        return None
    q = v[0]["query"]
    k = int(v[0]["args"][0][2]) if v[0]["args"] else int(q.rpartition("= ")[2])
    return 100 * n + k + int(q.split(" ")[3])


def ask(p, out="pr21"):
    if p[0] == "format":
        return "insert into %s select '${@%s}' as x" % (out, "d21" if p[1] == "date" else "dt21")
    if p[0] == "import":
        return "insert into %s select %s$tag() as x" % (out, p[1])
    return "insert into %s select sum(m) as x from %s.%s" % (out, p[1], "v" if p[0] == "db" else p[2])


def run(case, obs):
    import random
    rng = random.Random(case["seed"])
    root = os.getcwd()
    base = os.path.join(root, "case21")
    home, cwd, ext = (os.path.join(base, d) for d in ("h", "w", "x"))
    hdir = os.path.join(home, ".syncany") if case["default_home"] else home
    import shutil
    shutil.rmtree(base, ignore_errors=True)
    for d in (hdir, cwd, ext):
        os.makedirs(d)
    old_env, old_home, old_path = os.environ.get("SYNCANY_HOME"), os.environ.get("HOME"), list(sys.path)
    try:
        if case["default_home"]:
            obs.hit("default_home")
            os.environ.pop("SYNCANY_HOME", None)
            os.environ["HOME"] = home
        else:
            os.environ["SYNCANY_HOME"] = home
        os.chdir(cwd)
        play(case, obs, rng, root, hdir, cwd, ext)
    finally:
        os.chdir(root)
        sys.path[:] = old_path
        for k, v in (("SYNCANY_HOME", old_env), ("HOME", old_home)):
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        shutil.rmtree(base, ignore_errors=True)


def play(case, obs, rng, root, hdir, cwd, ext):
    from syncanysql import ScriptEngine
    for n in "abc":
        open(n + ".json", "w").write("{}")
    known, nfile, nexec = set(), [0], [0]
    order = []                          # executed init files, outermost first

    def with_executes(d, folder):
        if case["executes"] and rng.random() < 0.5:
            d["executes"] = []
            for _ in range(rng.randint(1, 2)):
                nexec[0] += 1
                name = "i%d.sql" % nexec[0]
                open(os.path.join(folder, name), "w").write("insert into ini select %d as n;" % nexec[0])
                # found as given, or in the home folder
                d["executes"].append(os.path.join(folder, name) if folder != hdir or rng.random() < 0.5 else name)
        return d

    def write(path, depth=0):
        """Writes a file with its extends, returns its effective settings."""
        d = {}
        eff = {}
        if depth < 3 and rng.random() < 0.45:
            obs.hit("extends")
            if depth:
                obs.hit("extends_nested")
            exts = []
            for _ in range(rng.randint(1, 2)):
                nfile[0] += 1
                exts.append(os.path.join(ext, "e%d.%s" % (nfile[0], rng.choice(["json", "yaml"]))))
            subs = [write(p, depth + 1) for p in exts]
            if len(exts) == 1 and rng.random() < 0.5:
                obs.hit("extends_str")
                d["extends"] = exts[0]
            else:
                d["extends"] = exts
            for s in subs:
                eff = overlay(eff, s)
        own = with_executes(layer(rng, root, known, case["lists"], case["fixed"]), hdir if path.startswith(hdir + os.sep) else ext)
        d.update(copy.deepcopy(own))
        with open(path, "w") as f:
            if path.endswith("yaml"):
                obs.hit("yaml")
                yaml.safe_dump(d, f)
            else:
                json.dump(d, f)
        for x in own.get("databases", []):
            if any(y["name"] == x["name"] for y in eff.get("databases", [])):
                obs.hit("db_merge")
                if x.get("virtual_views") and any(y["name"] == x["name"] and y.get("virtual_views") for y in eff["databases"]):
                    obs.hit("view_merge")
        return overlay(eff, own)

    eff = {}
    layers = 0
    for n in case["names"]:
        where, kind = n.split(".")
        s = write(os.path.join(hdir if where == "home" else cwd, "config." + kind))
        eff = overlay(eff, s)
        layers += 1
    custom = None
    if case["custom"]:
        custom = with_executes(layer(rng, root, known, case["lists"], case["fixed"]), ext)
        if rng.random() < 0.3:
            custom.setdefault("imports", {})["fn"] = len
        eff = overlay(eff, copy.deepcopy({k: v for k, v in custom.items() if k != "imports"}))
        if "imports" in custom:
            eff = overlay(eff, {"imports": dict(custom["imports"])})
        layers += 1
    obs.hit("engines")
    if layers >= 3:
        obs.hit("layers>=3")
    frozen = repr(custom)
    executes = eff.pop("executes", [])
    eff["databases"] = [dict(d) for d in eff.get("databases", [])]
    for n, drv in (("-", "textline"), ("--", "memory")):
        if not any(d["name"] == n for d in eff["databases"]):
            eff["databases"].append({"name": n, "driver": drv})
    for d in eff["databases"]:
        if d.get("driver") in ("textline", "json", "csv"):
            for k in ("encoding", "date_format", "datetime_format", "time_format"):
                if eff.get(k):
                    d.setdefault(k, eff[k])
    e = ScriptEngine(custom)
    err = eng.attempt(e.setup)
    if isinstance(err, eng.Raised):
        return obs.fail("setup", "the configuration was refused: %s" % err, files={n: open(os.path.join(hdir if n[:4] == "home" else cwd, "config." + n.partition(".")[2])).read() for n in case["names"]}, custom=frozen)
    ini = e.pop_memory_datas("ini")
    want = [int(os.path.basename(x)[1:-4]) for x in executes]
    if executes:
        obs.hit("executes")
    if [r["n"] for r in ini] != want:
        return obs.fail("executes", "init scripts ran %r, should be %r" % ([r["n"] for r in ini], want))
    sessions = {"engine": e}
    parent = {"engine": eff}            # settings outside of the session's own layer
    for j in range(case["ctxs"]):
        sessions["c%d" % j] = e.context()
    own = {k: {} for k in sessions}
    glob = eff

    def effective(name):
        x = overlay(glob, own["engine"])
        return x if name == "engine" else overlay(x, own[name])
    for s in sessions.values():
        s.set_variable("@d21", datetime.date(2023, 4, 5))
        s.set_variable("@dt21", datetime.datetime(2023, 4, 5, 6, 7, 8))
    history = []

    def compare(name, what):
        obs.hit("compared")
        s = sessions[name]
        ex = s.executor
        got, want = canon(ex.session_config.get()), canon(effective(name))
        bad = {k: (got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k)}
        if bad:
            obs.fail("effective", "%s: session %s has %s" % (what, name, "; ".join("%s=%r should be %r" % (k, g, w) for k, (g, w) in sorted(bad.items()))[:900]), history=history, custom=frozen)
            return False
        return True

    pool = {}

    def check_probe(name, p, settings=None, got=None):
        settings = effective(name) if settings is None else settings
        w = expect(settings, p)
        quirk = expect(settings, p, pool)
        obs.hit("ran:missing" if w is None else "ran:" + p[0])
        if got is None:
            got = eng.attempt(sessions[name].execute, ask(p))
            if not isinstance(got, eng.Raised):
                got = e.pop_memory_datas("pr21")
                got = got[0]["x"] if got else "no row"
        if w is None:
            if not isinstance(got, eng.Raised):
                obs.fail("behaviour", "session %s: %r answers %r, but it is not configured" % (name, p, got), history=history, custom=frozen)
                return False
        elif not isinstance(got, eng.Raised) and got == quirk != w:
            obs.finding("database-pool-by-name", "session %s reads the file first opened under the name %s" % (name, p[1]))
        elif isinstance(got, eng.Raised) or got != w:
            obs.fail("behaviour", "session %s: %r gives %r, should be %r" % (name, p, got, w), history=history, custom=frozen)
            return False
        return True

    for name in sessions:
        if not compare(name, "at the start"):
            return
    for st in case["steps"]:
        obs.hit("steps")
        name = "engine" if st["where"] in ("engine",) else "c%d" % st["ctx"]
        where = st["where"]
        isglob = where == "global"
        target = glob if isglob else ({} if where == "file" else own[name])
        outer = {} if isglob else effective(name)
        before = copy.deepcopy(effective(name))
        sqls = []
        for s in st["sets"]:
            saved = copy.deepcopy({k: v for k, v in target.items() if k != "imports"}), dict(target.get("imports", {}))
            sql = apply(obs, target, outer, s, root, isglob, True)
            views = [effective(n) for n in sessions] + [overlay(before, target)]
            if any("driver" not in d for v in views for d in v.get("databases", [])):
                # a database without driver is the user's mistake, not generated
                target.clear()
                target.update(saved[0])
                if saved[1]:
                    target["imports"] = saved[1]
                continue
            sqls.append(sql)
        if not sqls:
            continue
        inside = overlay(before, target) if where == "file" else effective(name)
        obs.hit("set:" + ("file" if where == "file" else where))
        obs.nontrivial(where, repr(st["sets"]), len(history))
        parts, checks = [], []
        if st["probe_at"] == "script" and all(expect(x, p) is not None for p in st["probes"] for x in (before, inside)):
            # the statements before the SETs see the old settings, those after them the new ones
            obs.hit("same_script")
            for j, p in enumerate(st["probes"]):
                parts.append(ask(p, "b%d" % j))
                checks.append(("b%d" % j, p, before))
            parts += sqls
            for j, p in enumerate(st["probes"]):
                parts.append(ask(p, "a%d" % j))
                checks.append(("a%d" % j, p, inside))
        else:
            parts = sqls
            if where == "file":
                for j, p in enumerate(st["probes"]):
                    if expect(inside, p) is not None:
                        parts.append(ask(p, "f%d" % j))
                        checks.append(("f%d" % j, p, inside))
        script = "; ".join(parts)
        if where == "file":
            open("s21.sql", "w").write(script + ";\n")
            run_sql = "execute `s21.sql`"
        else:
            run_sql = script
        history.append((name, where, script))
        r = eng.attempt(sessions[name].execute, run_sql)
        if isinstance(r, eng.Raised):
            return obs.fail("raised", "the settings were refused: %s" % r, history=history, custom=frozen)
        for out, p, settings in checks:
            got = e.pop_memory_datas(out)
            if not check_probe(name, p, settings, got[0]["x"] if got else "no row"):
                return
        for n in sessions:
            if not compare(n, "after the step"):
                return
        for p in st["probes"]:
            for n in (sessions if st["probe_at"] == "all" else [name]):
                if not check_probe(n, p):
                    return
        obs.hit("caller")
        if repr(custom) != frozen:
            return obs.fail("caller", "the caller's config object changed", before=frozen, after=repr(custom), history=history)
    # an engine made now, and its defaults, know nothing of it
    obs.hit("fresh")
    empty = os.path.join(cwd, "empty")
    os.makedirs(empty)
    os.environ["SYNCANY_HOME"] = empty
    os.chdir(empty)
    f = ScriptEngine()
    f.setup()
    got = canon(f.executor.session_config.get())
    want = canon({"databases": [{"name": "-", "driver": "textline"}, {"name": "--", "driver": "memory"}]})
    if got != want:
        return obs.fail("leak", "a new engine without configuration has %r" % {k: v for k, v in got.items() if v != want.get(k)}, history=history)
    f.close()
    obs.sample({"custom": frozen[:300], "history": history[:3]})
    e.close()


def probes(obs):
    from vlib import harness
    from syncanysql import ScriptEngine
    root = harness.scratch()
    paths = []
    for n in (1, 2):
        paths.append(os.path.join(root, "pool%d.db" % n))
        con = sqlite3.connect(paths[-1])
        con.execute("create table v (m int)")
        con.execute("insert into v values (?)", (n,))
        con.commit()
        con.close()
    e = ScriptEngine({"databases": [{"name": "pq", "driver": "sqlite", "database": paths[0]}]})
    e.execute("insert into o select m from pq.v")
    e.execute("set @config.databases.pq.database = '%s'; insert into o select m from pq.v" % paths[1])
    got = [r["m"] for r in e.get_memory_datas("o")]
    if got == [1, 1]:
        obs.finding("database-pool-by-name", "after SET @config.databases.pq.database queries still read the file opened before")
    elif got != [1, 2]:
        obs.fail("probe", "a database set again gives %r" % got)
    e.close()
    # modules of the pypackage_paths of the configuration can be imported by name
    for k, form in enumerate(("one", "list", "none")):
        d = os.path.join(root, "pkg21%d" % k)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "pp21x%d.py" % k), "w") as fp:
            fp.write("def f(x):\n    return x * 10 + %d\n" % k)
        before = list(sys.path)
        try:
            e = ScriptEngine({"one": {"pypackage_paths": d}, "list": {"pypackage_paths": [os.path.join(root, "nosuch21"), d]}, "none": {}}[form])
            got = eng.attempt(lambda: (e.execute("use pp21x%d; insert into o select pp21x%d$f(4) as v" % (k, k)), [r["v"] for r in e.get_memory_datas("o")])[1])
            e.close()
        finally:
            sys.path[:] = before
        if (got != [40 + k]) if form != "none" else got == [40 + k]:
            obs.fail("probe", "pypackage_paths given as %s: a function of a module there gives %r" % (form, got))
