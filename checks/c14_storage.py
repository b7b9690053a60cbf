"""C14: the same rows in every local storage; writing and reading files against a model of their contents."""
import csv, io, json, os, re, shutil
from vlib import eng, harness

META = {
    "id": "C14", "sizes": {"quick": 3200, "thorough": 60000}, "chunk": 20, "probes": True,
    "rule": "rows with special characters were written to and read back from at least two storages, or one query was answered over the same rows in several storages, or text lines were split",
    "required": {"op": 3000, "op_csv": 500, "op_json": 500, "op_txt": 300, "op_xlsx": 300, "op_mem": 300, "cross": 1000, "append": 300,
                 "readback": 3000, "untouched": 8000, "query": 3000, "q_csv": 500, "q_json": 500, "q_xlsx": 300, "q_mem": 300,
                 "q_join": 200, "q_where": 200, "q_group": 200, "q_order": 200, "q_sub": 100, "q_union": 100, "mixed_dir": 500, "params": 300, "text": 200, "missing": 100},
    "technique": "runtime monitoring: files written by the real engine are parsed independently (csv, json, openpyxl, text) after every statement and compared with a model of their contents; queries over the same rows in different storages are compared with a model answer; directory snapshots before and after",
    "note": "Histories of INSERT ... SELECT between memory tables and CSV, JSON, text and spreadsheet files (relative, absolute, file:// with parameters, sheets), several formats and similarly named directories side by side, hostile strings, all number kinds and NULLs; typed-column queries (where, group, order/limit, distinct, join across storages, subquery, union) over the same rows in each storage; separator splitting of text lines; missing files; several read batch sizes.",
}
STR = ["a", "b,c", 'q"q', "it's", "l\nm", "r\r\nn", "t\tt", "p|p;q", " lead", "trail ", "  ", "", "é漢😀", "\\", "\\n", "#x", "@a", "${x}", "`b`", "%s", "007", "1e5", "None", "null", "true", "0", "-1.50", "[x]", "{\"a\":1}", "a b", "'", '"', ",", "'q'", '""', "<csv>", "x" * 300, "\u2028", "é", "--c", "/*c*/", "a=b&c", "\x7f", "1,5", "NaN", "2021-02-03"]
XBAD = re.compile(r"[\x00-\x1f]|^=|_x[0-9A-Fa-f]{4}_|^#")
KINDS = ["csv", "json", "txt", "xlsx", "mem"]


def rstr(rng):
    if rng.random() < 0.7:
        return rng.choice(STR)
    return "".join(rng.choice("ab ,;|\"'\n\r\t\\é漢0-_:#.") for _ in range(rng.randint(1, 8)))


def rval(rng, kind):
    if rng.random() < 0.15:
        return None
    if kind == "s":
        return rstr(rng)
    if kind == "n":
        return rng.choice([0, 1, -7, 42, 0.5, -2.25, 0.1, 1e300, 1e-7, 2 ** 52 + 1, -0.001, 3.0, 100000000])
    if kind == "b":
        return rng.choice([True, False])
    return rval(rng, rng.choice("ssnb"))


def spell(rng, d, fname, kind):
    """One way to write the name of the file fname in the directory d (relative to the working directory)."""
    p = os.path.join(d, fname) if d else fname
    r = rng.random()
    if r < 0.5:
        return p
    if r < 0.75:
        return "{CWD}/" + p
    if r < 0.85:
        return "./" + p
    return "file://" + ("{CWD}/" + p if rng.random() < 0.5 else p)


def make(rng, i, tier):
    r = rng.random()
    if r < 0.5:
        return make_history(rng)
    if r < 0.88:
        return make_query(rng)
    if r < 0.96:
        return make_text(rng)
    return make_missing(rng)


# ---------------------------------------------------------------- histories of writes
def rep(kind, v):
    """The value that reading back gives after v was written to a storage of this kind."""
    if kind == "csv":
        return "" if v is None else str(v)
    if kind == "xlsx":
        return None if v == "" else int(v) if isinstance(v, float) and abs(v) < 1e15 and v == int(v) else v
    return v


def make_history(rng):
    dirs = rng.choice([[""], ["", "d"], ["d-1", "d_1"], ["d.x", "d"], ["a b", "é"]])
    cols = [("id", "n")] + [(c, rng.choice("ssnbm")) for c in rng.sample(["s", "val", "t x", "ü", "Key", "z1"], rng.randint(1, 3))]
    names = [c for c, _ in cols]
    files = {}
    for k in rng.sample(range(6), rng.randint(2, 4)):
        kind = ["csv", "json", "txt", "xlsx", "mem", "csv"][k]
        d = rng.choice(dirs)
        stem = rng.choice(["f", "f%d" % k, "data.v%d" % k, "F g", "x-%d" % k])
        if kind == "mem":
            files["m%d" % k] = {"kind": "mem", "spell": ["m%d" % k], "path": None}
            continue
        fname = stem + "." + kind
        path = os.path.join(d, fname) if d else fname
        if path in files:
            continue
        f = {"kind": kind, "path": path, "spell": [spell(rng, d, fname, kind) for _ in range(2)], "params": {}}
        if kind == "csv" and rng.random() < 0.3:
            p = rng.choice([{"delimiter": ";"}, {"delimiter": "\t"}, {"delimiter": "|", "quotechar": "'"}, {"encoding": "utf-16"}, {"quotechar": "'"}, {"encoding": "gb18030"}, {"delimiter": "&"}, {"delimiter": "="}])
            f["params"] = p
            f["spell"] = ["file://" + s.replace("file://", "").replace(" ", rng.choice([" ", "%20"])) + "?" + "&".join("%s=%s" % (k2, q(v2, rng)) for k2, v2 in p.items()) for s in f["spell"]]
        elif kind == "txt" and rng.random() < 0.5:
            f["sep"] = rng.choice(["|", ";", "\t", ","])
            f["spell"] = ["file://" + s.replace("file://", "") + "?sep=" + q(f["sep"], rng) for s in f["spell"]]
        elif kind == "txt" and rng.random() < 0.4:
            f["format"] = rng.choice(["csv", "json"])
            f["spell"] = [s + "<%s>" % f["format"] for s in f["spell"]]
        elif kind == "xlsx" and rng.random() < 0.4:
            f["sheet"] = rng.choice(["Sheet1", "s 2", "é"])
            f["spell"] = [s + "#" + f["sheet"] for s in f["spell"]]
        files[path] = f
    xlsx = any(f["kind"] == "xlsx" for f in files.values())
    n = rng.choice([1, 2, 3, 5, 8])
    src = []
    for j in range(n):
        row = {c: (j + 1 if c == "id" else rval(rng, k)) for c, k in cols}
        if xlsx:
            row = {c: (XBAD.sub("?", v) if isinstance(v, str) else v) for c, v in row.items()}
        src.append(row)
    # the history: model contents are lists of rows
    content = {name: None for name in files}
    ops, keys, batch = [], list(files), rng.choice([0, 0, 0, 1, 2, 3])
    for _ in range(rng.randint(2, 6)):
        tgt = rng.choice(keys)
        cands = ["src"] + [k for k in keys if content[k] and k != tgt and files[k]["kind"] != "txt"]
        if content[tgt] and files[tgt]["kind"] in ("json", "mem", "csv") and not batch and rng.random() < 0.1:
            cands = [tgt]
        s = rng.choice(cands)
        rows = src if s == "src" else content[s]
        pick = names if rng.random() < 0.6 or content[tgt] else rng.sample(names, rng.randint(1, len(names)))
        if content[tgt]:
            pick = list(content[tgt][0])
            if files[tgt]["kind"] == "txt" and rng.random() < 0.3:
                pick = rng.sample(names, rng.randint(1, len(names)))
        if files[tgt]["kind"] == "xlsx" and "id" not in pick:
            continue
        if s != "src" and rows and not all(c in rows[0] for c in pick):
            continue
        kind = files[tgt]["kind"]
        new = [{c: rep(kind, r_[c]) for c in pick} for r_ in rows]
        if kind == "xlsx" and any(isinstance(v, str) and XBAD.search(v) for r_ in new for v in r_.values()):
            continue
        content[tgt] = (content[tgt] or []) + new if kind != "txt" else new
        ops.append({"tgt": tgt, "ts": rng.choice(files[tgt]["spell"]), "src": s, "ss": "src" if s == "src" else rng.choice(files[s]["spell"]), "cols": pick,
                    "rows": new, "star": pick == names and s == "src" and rng.random() < 0.3, "append": len(content[tgt]) > len(new), "content": [dict(r_) for r_ in content[tgt]]})
    return {"type": "history", "src": src, "files": files, "ops": ops, "batch": batch, "ibatch": rng.choice([0, 0, 1, 2, 3]), "dirs": dirs}


def q(v, rng):
    return {"\t": "%09", "&": "%26", "=": rng.choice(["=", "%3D"]), "|": rng.choice(["|", "%7C"]), ";": rng.choice([";", "%3B"])}.get(v, v)


def parse(f, path):
    """Independent reading of a file: list of rows, or the text for text files."""
    kind = f["kind"]
    enc = f.get("params", {}).get("encoding", "utf-8")
    if kind == "json":
        with open(path, encoding="utf-8") as fp:
            return json.load(fp)
    if kind == "csv":
        with open(path, encoding=enc, newline="") as fp:
            rows = list(csv.reader(fp, delimiter=f["params"].get("delimiter", ","), quotechar=f["params"].get("quotechar", '"')))
        return [dict(zip(rows[0], r)) if len(r) == len(rows[0]) else r for r in rows[1:]]
    if kind == "xlsx":
        import openpyxl
        wb = openpyxl.load_workbook(path)
        ws = wb[f["sheet"]] if f.get("sheet") else wb.worksheets[0]
        rows = [list(r) for r in ws.values]
        return [dict(zip(rows[0], r)) for r in rows[1:]] if rows else []
    with open(path, encoding="utf-8", newline="") as fp:
        return fp.read()


def text_of(f, rows, cols):
    if f.get("format") == "csv":
        s = io.StringIO()
        w = csv.writer(s, quoting=csv.QUOTE_NONNUMERIC)
        w.writerow(cols)
        for r in rows:
            w.writerow([r[c] for c in cols])
        return s.getvalue()
    if f.get("format") == "json":
        return [{c: r[c] for c in cols} for r in rows]
    sep = f.get("sep") or " "
    out = ""
    for r in rows:
        out += sep.join("'%s'" % r[c] if sep in str(r[c]) else str(r[c]) for c in cols) + "\n"
    return out


def lines(text):
    return re.findall(r"[^\r\n]*(?:\r\n|\n|\r)|[^\r\n]+$", text)


def snapshot(root):
    out = {}
    for d, _, fs in os.walk(root):
        for n in fs:
            p = os.path.join(d, n)
            with open(p, "rb") as fp:
                out[os.path.relpath(p, root)] = fp.read()
    return out


def fresh(dirs):
    root = os.path.join(harness.scratch(), "c14")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    os.chdir(root)
    for d in dirs:
        os.makedirs(d or ".", exist_ok=True)
    return os.getcwd()


def decoys(root):
    for name, text in (("decoy.csv", "id,s\n1,x\n"), ("decoy.json", '[{"id": 1}]'), ("decoy.txt", "keep me\n"), ("f", "no extension"), ("decoy.xlsx", "not a workbook")):
        with open(os.path.join(root, name), "w") as fp:
            fp.write(text)


def same_table(got, want):
    return isinstance(got, list) and eng.same_rows(got, want, True)


def run_history(case, obs):
    root = fresh(case["dirs"])
    decoys(root)
    e = eng.engine({"src": case["src"]}, settings={k: v for k, v in (("@batch", case["batch"]), ("@insert_batch", case["ibatch"])) if v})
    written, kinds = {}, set()
    for op in case["ops"]:
        f = case["files"][op["tgt"]]
        collist = ", ".join("`%s`" % c for c in op["cols"])
        sql = "INSERT INTO `%s` SELECT %s FROM `%s`" % (op["ts"], "*" if op["star"] else collist, op["ss"])
        sql = sql.replace("{CWD}", root)
        before = snapshot(root)
        obs.hit("op"), obs.hit("op_" + f["kind"])
        if op["append"]:
            obs.hit("append")
        if op["src"] != "src":
            obs.hit("cross")
        if f.get("params") or f.get("sep") or f.get("sheet"):
            obs.hit("params")
        r = eng.attempt(e.execute, sql)
        if isinstance(r, eng.Raised):
            return obs.fail("error", "writing raised %r" % r, sql=sql, case=case)
        after = snapshot(root)
        skip = {f["path"]} | ({case["files"][op["src"]]["path"]} if op["src"] != "src" and case["files"][op["src"]]["kind"] == "xlsx" else set())
        for p in set(before) | set(after):
            if p in skip:
                continue
            obs.hit("untouched")
            if before.get(p) != after.get(p):
                return obs.fail("disturbed", "another file changed: %s" % p, sql=sql, before=repr(before.get(p))[:300], after=repr(after.get(p))[:300])
        if f["kind"] != "mem":
            got = eng.attempt(parse, f, os.path.join(root, f["path"]))
            if isinstance(got, eng.Raised):
                return obs.fail("unreadable", "the file written cannot be read: %r" % got, sql=sql)
            if f["kind"] == "txt":
                want = text_of(f, op["rows"], op["cols"])
                if f.get("format") == "json":
                    got = eng.attempt(lambda: [json.loads(x) for x in got.split("\n") if x])
                if got != want:
                    return obs.fail("text", "text file differs", sql=sql, got=repr(got)[:600], want=repr(want)[:600])
            elif not same_table(got, op["content"]):
                return obs.fail("file", "file contents differ", sql=sql, got=repr(got)[:600], want=repr(op["content"])[:600])
            elif f["kind"] in ("csv", "xlsx") and op["content"] and list(got[0]) != op["cols"]:
                return obs.fail("columns", "columns of the file differ", sql=sql, got=list(got[0]), want=op["cols"])
            elif f["kind"] == "json" and op["src"] == "src" and any(type(a[c]) is not type(b[c]) for a, b in zip(got[-len(op["rows"]):], op["rows"]) for c in b):
                return obs.fail("types", "types of the JSON values differ", sql=sql, got=repr(got)[:600], want=repr(op["content"])[:600])
        written[op["tgt"]] = op
        kinds.add(f["kind"])
    # everything is read back
    for tgt, op in written.items():
        f = case["files"][tgt]
        if f.get("format") == "json":
            continue
        before = snapshot(root)
        if f["kind"] == "txt" and f.get("format") != "csv":
            sql = "SELECT line FROM `%s`" % f["spell"][0]
            want = [{"line": x} for x in lines(text_of(f, op["rows"], op["cols"]))]
        else:
            sql = "SELECT %s FROM `%s`" % (", ".join("`%s`" % c for c in op["cols"]), f["spell"][-1])
            want = op["content"] if f["kind"] != "txt" else [{c: rep("csv", r[c]) for c in op["cols"]} for r in op["content"]]
        sql = sql.replace("{CWD}", root)
        got = eng.attempt(eng.query, e, sql)
        obs.hit("readback")
        if isinstance(got, eng.Raised) or not same_table(got, want):
            return obs.fail("readback", "rows read back differ", sql=sql, got=repr(got)[:600], want=repr(want)[:600])
        after = snapshot(root)
        for p in set(before) | set(after):
            if f["kind"] == "xlsx" and p == f["path"]:
                rows = eng.attempt(parse, f, os.path.join(root, p))
                if not same_table(rows, want):
                    return obs.fail("read_changes", "reading changed the cells of the file", sql=sql, got=repr(rows)[:300], want=repr(want)[:300])
            elif before.get(p) != after.get(p):
                return obs.fail("read_changes", "reading changed the file %s" % p, sql=sql)
    if len(kinds) >= 2:
        obs.hit("mixed_dir")
        obs.nontrivial([o["ts"] for o in case["ops"]], case["src"])
        obs.sample([[o["src"], o["ts"], len(o["rows"])] for o in case["ops"]])


# ---------------------------------------------------------------- queries over the same rows
OPS = {">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, "=": lambda a, b: a == b, "<>": lambda a, b: a != b}


def qtable(rng, big):
    n = rng.choice([0, 1, 3, 6, 12]) if not big else rng.choice([3, 6, 12, 25])
    ids = rng.sample(range(0, 40), n)
    return [{"id": i, "k": rng.choice([None, 0, 1, 2, 3, 10, 11, 20]), "v": rng.choice([None, 0.5, 1.25, -3.75, 10.5, 2.0, 9.25, 100.0]),
             "s": rng.choice(["a", "B", "b", "x y", "é", "1", "10", "9", "a,b", 'q"', "ab"])} for i in ids]


def typed(rows):
    return [{"id": r["id"], "k": r["k"] or 0, "v": r["v"] or 0.0, "s": r["s"]} for r in rows]


def make_query(rng):
    t1, t2 = qtable(rng, True), qtable(rng, False)
    a, b = typed(t1), typed(t2)
    kind = rng.choice(["plain", "where", "where", "group", "order", "distinct", "join", "expr", "sub", "union", "in"])
    cond, keep = "", lambda r: True
    if kind in ("where", "expr", "group", "order") or rng.random() < 0.3:
        parts, fs = [], []
        for _ in range(rng.choice([1, 1, 2])):
            c = rng.choice(["id", "k", "v"])
            op = rng.choice(list(OPS))
            x = rng.choice([0, 1, 2, 3, 9, 10, 11, 20, 30]) if c != "v" else rng.choice([0.5, 1.25, 9.25, 10.5, 2.0])
            parts.append("`%s[%s]` %s %s" % (c, "float" if c == "v" else "int", op, x))
            fs.append((c, op, x))
        cond = " WHERE " + " AND ".join(parts)
        keep = lambda r, fs=fs: all(OPS[op](r[c], x) for c, op, x in fs)
    a1 = [r for r in a if keep(r)]
    ordered = False
    ALL = "`id[int]` AS id, `k[int]` AS k, `v[float]` AS v, s"
    if kind == "plain" or kind == "where":
        sql, want, ordered = "SELECT %s FROM {A}%s" % (ALL, cond), a1, True
    elif kind == "expr":
        sql = "SELECT `id[int]` + 1 AS x, `k[int]` * 2 - `id[int]` AS y, `v[float]` / 2 AS z, CONCAT(s, '!') AS w FROM {A}%s" % cond
        want, ordered = [{"x": r["id"] + 1, "y": r["k"] * 2 - r["id"], "z": r["v"] / 2, "w": r["s"] + "!"} for r in a1], True
    elif kind == "group":
        by = rng.choice(["k", "s"])
        sql = "SELECT %s, COUNT(*) AS c, SUM(`id[int]`) AS si, MAX(`v[float]`) AS mv, MIN(`id[int]`) AS mi FROM {A}%s GROUP BY %s" % ("`k[int]` AS k" if by == "k" else "s", cond, by if by == "s" else rng.choice(["k", "`k[int]`"]))
        groups = {}
        for r in a1:
            groups.setdefault(r[by], []).append(r)
        want = [{by: g, "c": len(rs), "si": sum(r["id"] for r in rs), "mv": max(r["v"] for r in rs), "mi": min(r["id"] for r in rs)} for g, rs in groups.items()]
    elif kind == "order":
        d1, off, lim = rng.random() < 0.5, rng.choice([0, 0, 1, 2]), rng.choice([None, 2, 5, 100])
        col = rng.choice(["v", "k"])
        sql = "SELECT %s FROM {A}%s ORDER BY %s%s, id%s" % (ALL, cond, col, " DESC" if d1 else "", "" if lim is None else " LIMIT %d%s" % (lim, " OFFSET %d" % off if off else ""))
        want = sorted(sorted(a1, key=lambda r: r["id"]), key=lambda r: r[col], reverse=d1)
        want, ordered = want[off if lim is not None else 0:][:lim], True
    elif kind == "distinct":
        sql = "SELECT DISTINCT `k[int]` AS k FROM {A}%s" % cond
        want = [{"k": k} for k in dict.fromkeys(r["k"] for r in a1)]
    elif kind == "join":
        left = rng.random() < 0.5
        cond = re.sub(r"`(\w+\[)", r"a.`\1", cond)
        sql = "SELECT a.`id[int]` AS id, a.s AS s1, b.`id[int]` AS bid, b.s AS s2 FROM {A} a %s {B2} b ON a.`k[int]` = b.`id[int]`%s" % ("LEFT JOIN" if left else "INNER JOIN", cond)
        want = []
        for r in a1:
            m = [x for x in b if x["id"] == r["k"]]
            want += [{"id": r["id"], "s1": r["s"], "bid": x["id"], "s2": x["s"]} for x in m]
            if not m and left:
                want.append({"id": r["id"], "s1": r["s"], "bid": 0, "s2": None})
    elif kind == "sub":
        x = rng.choice([1, 2, 5, 10, 20])
        sql = "SELECT k, SUM(id) AS si, COUNT(*) AS c FROM (SELECT %s FROM {A}%s) q WHERE id > %d GROUP BY k" % (ALL, cond, x)
        groups = {}
        for r in a1:
            if r["id"] > x:
                groups.setdefault(r["k"], []).append(r)
        want = [{"k": g, "si": sum(r["id"] for r in rs), "c": len(rs)} for g, rs in groups.items()]
    elif kind == "in":
        sql = "SELECT %s FROM {A} WHERE `id[int]` IN (SELECT `k[int]` AS k FROM {B})" % ALL
        want = [r for r in a if r["id"] in {x["k"] for x in b}]
        cond = ""
    else:
        al = rng.random() < 0.5
        sql = "SELECT `id[int]` AS id, s FROM {A}%s UNION %sSELECT `id[int]` AS id, s FROM {B}" % (cond, "ALL " if al else "")
        want = [{"id": r["id"], "s": r["s"]} for r in a1] + [{"id": r["id"], "s": r["s"]} for r in b]
        if not al:
            want = [dict(zip(("id", "s"), t)) for t in dict.fromkeys((r["id"], r["s"]) for r in want)]
    pairs = [(x, x if kind not in ("join", "sub", "in", "union") else rng.choice(["mem", "json", "csv", "xlsx"])) for x in ("mem", "json", "csv", "xlsx")]
    return {"type": "query", "kind": kind, "sql": sql, "want": want, "ordered": ordered, "t1": t1, "t2": t2, "pairs": pairs, "where": bool(cond),
            "batch": rng.choice([0, 0, 0, 1, 2, 5]), "dirs": rng.choice([["d"], ["d-1", "d_1"]]), "url": rng.random() < 0.3}


def put(kind, path, rows):
    cols = ["id", "k", "v", "s"]
    if kind == "json":
        with open(path, "w") as fp:
            json.dump(rows, fp)
    elif kind == "csv":
        with open(path, "w", newline="") as fp:
            w = csv.writer(fp)
            w.writerow(cols)
            for r in rows:
                w.writerow([r[c] for c in cols])
    elif kind == "xlsx":
        import openpyxl
        wb = openpyxl.Workbook()
        wb.worksheets[0].append(cols)
        for r in rows:
            wb.worksheets[0].append([r[c] for c in cols])
        wb.save(path)


def run_query(case, obs):
    root = fresh(case["dirs"])
    d1, d2 = case["dirs"][0], case["dirs"][-1]
    for kind in ("json", "csv", "xlsx"):
        put(kind, os.path.join(root, d1, "t1." + kind), case["t1"])
        put(kind, os.path.join(root, d2, "t2." + kind), case["t2"])
    before = snapshot(root)
    e = eng.engine({"t1": case["t1"], "t2": case["t2"]}, settings={"@batch": case["batch"]} if case["batch"] else None)
    pre = "file://" if case["url"] else ""
    for ka, kb in case["pairs"]:
        A = "t1" if ka == "mem" else "`%s%s/t1.%s`" % (pre, d1, ka)
        B = "t2" if kb == "mem" else "`%s%s/t2.%s`" % (pre, d2, kb)
        # the type declared for a join key is the one the joined table stores: columns of text files are converted first
        B2 = B if kb != "csv" else "(SELECT `id[int]` AS id, s FROM %s)" % B
        sql = case["sql"].replace("{A}", A).replace("{B}", B).replace("{B2}", B2)
        got = eng.attempt(eng.query, e, sql)
        obs.hit("query"), obs.hit("q_" + ka), obs.hit("q_" + case["kind"])
        if case["where"]:
            obs.hit("q_where")
        if isinstance(got, eng.Raised) or not eng.same_rows(got, case["want"], case["ordered"]):
            return obs.fail("query", "answer over %s/%s differs" % (ka, kb), sql=sql, batch=case["batch"], got=repr(got)[:700], want=repr(case["want"])[:700], t1=case["t1"], t2=case["t2"])
    if case["want"]:
        obs.nontrivial(case["sql"], case["t1"])
        obs.sample(case["sql"])
    after = snapshot(root)
    for p in set(before) | set(after):
        if not p.endswith(".xlsx") and before.get(p) != after.get(p):
            return obs.fail("read_changes", "a query changed the file %s" % p, sql=case["sql"])
    for p, rows in ((os.path.join(d1, "t1.xlsx"), case["t1"]), (os.path.join(d2, "t2.xlsx"), case["t2"])):
        got = parse({"kind": "xlsx"}, os.path.join(root, p))
        if not same_table(got, rows):
            return obs.fail("read_changes", "a query changed the cells of %s" % p, sql=case["sql"], got=repr(got)[:300], want=repr(rows)[:300])
    if set(after) != set(before):
        return obs.fail("read_changes", "a query created or removed files", got=sorted(after), want=sorted(before))


# ---------------------------------------------------------------- text lines
def make_text(rng):
    sep = rng.choice([" ", "|", ";", ",", "\t", "&", "#", "="])
    rows, text = [], ""
    n = rng.choice([1, 2, 5, 9])
    w = rng.randint(1, 5)
    for _ in range(n):
        segs = []
        for j in range(w):
            body = "".join(rng.choice("abc019é.-_/") for _ in range(rng.randint(1, 6)))
            if rng.random() < 0.2:
                body = rng.choice(["[%s]", "(%s)"]) % (body + sep + "x")
            elif rng.random() < 0.1 and 0 < j < w - 1 and sep not in " \t":
                body = ""
            segs.append(body)
        line = sep.join(segs) + "\n"
        rows.append(segs)
        text += line
    if rng.random() < 0.3:
        text = text[:-1]
    return {"type": "text", "sep": sep, "w": w, "rows": rows, "text": text, "name": rng.choice(["x.log", "access", "y.txt", "d/z.dat"]),
            "q": rng.choice(["all", "line", "where", "group", "limit"]), "batch": rng.choice([0, 0, 1, 2, 3]), "seg": rng.randint(0, w - 1),
            "absolute": rng.random() < 0.5, "pick": rng.randint(0, n - 1), "enc": rng.choice([None, None, "utf-8", "gb18030", "utf-16"])}


def run_text(case, obs):
    root = fresh(["d"])
    with open(os.path.join(root, case["name"]), "w", encoding=case["enc"] or "utf-8", newline="") as fp:
        fp.write(case["text"])
    before = snapshot(root)
    e = eng.engine({}, settings={"@batch": case["batch"]} if case["batch"] else None)
    sep = {" ": " ", "\t": "%09", "&": "%26", "#": "%23", "=": "="}.get(case["sep"], case["sep"])
    T = "`file://%s%s?sep=%s%s`" % (root + "/" if case["absolute"] else "", case["name"], sep, "&encoding=" + case["enc"] if case["enc"] else "")
    rows, s = case["rows"], case["seg"]
    if case["q"] == "all":
        sql = "SELECT %s FROM %s" % (", ".join("seg%d" % j for j in range(case["w"])), T)
        want = [{"seg%d" % j: r[j] for j in range(case["w"])} for r in rows]
    elif case["q"] == "line":
        sql = "SELECT line FROM %s" % T
        want = [{"line": x} for x in case["text"].splitlines(True)]
    elif case["q"] == "where":
        v = rows[case["pick"]][s]
        sql = "SELECT seg0 AS a, seg%d AS b FROM %s WHERE seg%d = '%s'" % (s, T, s, v)
        want = [{"a": r[0], "b": r[s]} for r in rows if r[s] == v]
    elif case["q"] == "group":
        sql = "SELECT seg%d AS g, COUNT(*) AS c FROM %s GROUP BY seg%d" % (s, T, s)
        groups = {}
        for r in rows:
            groups[r[s]] = groups.get(r[s], 0) + 1
        want = [{"g": g, "c": c} for g, c in groups.items()]
    else:
        sql = "SELECT seg0 AS a FROM %s LIMIT 2" % T
        want = [{"a": r[0]} for r in rows[:2]]
    obs.hit("text")
    got = eng.attempt(eng.query, e, sql)
    if isinstance(got, eng.Raised) or not eng.same_rows(got, want, True):
        return obs.fail("text", "segments of the lines differ", sql=sql, text=repr(case["text"])[:400], got=repr(got)[:500], want=repr(want)[:500])
    if snapshot(root) != before:
        return obs.fail("read_changes", "reading changed the directory", sql=sql)
    obs.nontrivial(sql, case["text"])


# ---------------------------------------------------------------- missing files
def make_missing(rng):
    return {"type": "missing", "name": rng.choice(["no.csv", "no.json", "no.txt", "d/no.csv", "file://no.log", "file://no?sep=,", "nodir/x.json"]),
            "sql": rng.choice(["SELECT a FROM {T}", "SELECT COUNT(*) AS c FROM {T} GROUP BY a", "SELECT a FROM {T} WHERE a = '1'", "SELECT s.id, x.a FROM src s LEFT JOIN {T} x ON s.id = x.a", "SELECT id FROM src UNION ALL SELECT a FROM {T}"])}


def run_missing(case, obs):
    root = fresh(["d"])
    decoys(root)
    before = snapshot(root)
    e = eng.engine({"src": [{"id": 1}, {"id": 2}]})
    got = eng.attempt(eng.query, e, case["sql"].replace("{T}", "`%s`" % case["name"]))
    obs.hit("missing")
    want = [{"id": 1, "a": None}, {"id": 2, "a": None}] if "JOIN" in case["sql"] else ([{"id": 1}, {"id": 2}] if "UNION" in case["sql"] else [])
    if isinstance(got, eng.Raised) or not eng.same_rows(got, want):
        return obs.fail("missing", "a missing file is not an empty table", sql=case["sql"], name=case["name"], got=repr(got)[:400], want=want)
    if snapshot(root) != before:
        return obs.fail("read_changes", "reading a missing file changed the directory", sql=case["sql"], name=case["name"])


def run(case, obs):
    {"history": run_history, "query": run_query, "text": run_text, "missing": run_missing}[case["type"]](case, obs)


def probes(obs):
    root = fresh([])
    put("xlsx", os.path.join(root, "p.xlsx"), [{"id": 1, "k": 2, "v": 0.5, "s": "a"}])
    before = snapshot(root)
    os.utime(os.path.join(root, "p.xlsx"), (1, 1))
    e = eng.engine({})
    eng.query(e, "SELECT id FROM `p.xlsx`")
    eng.query(e, "SELECT id FROM `absent.xlsx`")
    if os.stat(os.path.join(root, "p.xlsx")).st_mtime != 1 or os.path.exists(os.path.join(root, "absent.xlsx")):
        obs.finding("spreadsheet-read-rewrites", "SELECT id FROM `p.xlsx` saves the workbook again, and a missing workbook is created")
