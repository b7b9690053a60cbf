"""C20: JSON path functions and regular-expression functions against their definitions."""
import copy, json, re
from vlib import funcs, sqlmodel as M
from vlib.funcs import Fn, Skip, Null

META = {"id": "C20", "sizes": {"quick": 30000, "thorough": 250000},
        "rule": "random JSON documents (nested objects and arrays, unicode, blank, dotted member names, nulls, booleans; as text, as native values and built by constructors) x paths present and absent in all documented spellings x extract, set, remove, append, contains, contains_path, keys, length, depth, valid, array, object and compositions of them; random subjects and patterns (classes, groups, alternation, anchors, quantifiers, empty matches) x positions, occurrences, return options and match types of REGEXP, RLIKE, regexp_like/instr/substr/replace; in the select list, WHERE, CASE/IFNULL, INSERT and table-less SELECT; non-trivial = value differs between rows; distinct by (SQL, values)",
        "required": {"values": 10000, "null_values": 400, "nonnull_values": 5000, "path_hit": 500, "path_miss": 500, "doc_changed": 300},
        "note": "References are recursive definitions written over parsed paths; indexes into scalars and wildcards over objects are left unspecified."}

KEYS = ["a", "b", "c", "k1", "x y", "c.d", "\u00e9", "A"]
MISS = object()


# ------------------------------------------------------------------ generation
def scalar(rng):
    return rng.choice([0, 1, 2, -7, 12345678901, 1.5, -0.25, "", "x", "it's", 'q"uote', "\u6f22", "1", "a.b", True, False, None])


def doc(rng, depth=None, top=True):
    depth = rng.choice([1, 2, 2, 3]) if depth is None else depth
    if depth <= 0 or (not top and rng.random() < 0.3):
        return scalar(rng)
    if rng.random() < 0.55:
        return {k: doc(rng, depth - 1, False) for k in rng.sample(KEYS, rng.choice([0, 1, 2, 3, 4]))}
    return [doc(rng, depth - 1, False) for _ in range(rng.choice([0, 1, 2, 3, 4]))]


def step(rng, d=MISS):
    if isinstance(d, dict) and d and rng.random() < 0.85:
        return rng.choice(list(d))
    if isinstance(d, list) and rng.random() < 0.85:
        return rng.choice(list(range(len(d))) + [len(d)] * (rng.random() < 0.3)) if d else 0
    return rng.choice(KEYS + [0, 1, 2])


def spell(rng, steps):
    out = "$"
    for s in steps:
        if isinstance(s, int):
            out += "[%d]" % s
        elif s == "*":
            out += "[*]"
        elif "." in s:
            out += rng.choice(['."%s"', '["%s"]']) % s
        elif " " in s:
            out += rng.choice(['."%s"', '["%s"]', ".%s"]) % s
        else:
            out += rng.choice([".%s"] * 4 + ['."%s"', '["%s"]']) % s
    return out


def path(rng, d=MISS, wild=False):
    steps, here = [], d
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3]) if rng.random() < 0.3 else rng.choice([1, 1, 2, 2, 3])):
        if wild and isinstance(here, list) and "*" not in steps and rng.random() < 0.25:
            steps.append("*")
            here = here[0] if here else MISS
            continue
        s = step(rng, here)
        steps.append(s)
        here = sub(here, s)
    return spell(rng, steps)


def sub(d, s):
    if isinstance(s, int):
        return d[s] if isinstance(d, list) and s < len(d) else MISS
    return d[s] if isinstance(d, dict) and s in d else MISS


# ------------------------------------------------------------------ references
TOKEN = re.compile(r'\."([^"]*)"|\.([^.\[\]"]+)|\["([^"]*)"\]|\[(\d+)\]|\[(\*)\]')


def steps_of(p):
    assert p[0] == "$", p
    out, i = [], 1
    while i < len(p):
        m = TOKEN.match(p, i)
        if not m:
            raise Skip()
        q, n, b, x, w = m.groups()
        out.append(int(x) if x is not None else "*" if w else q if q is not None else n if n is not None else b)
        i = m.end()
    return out


def parsed(v):
    if isinstance(v, str):
        try:
            return json.loads(v)
        except ValueError:
            return v
    return copy.deepcopy(v)


def document(v):
    v = parsed(v)
    if v is None:
        raise Skip()
    return v


def get(d, steps):
    for k, s in enumerate(steps):
        if s == "*":
            if not isinstance(d, list):
                raise Skip()
            if k + 1 == len(steps):
                return d
            return [v for v in (get(x, steps[k + 1:]) for x in d) if v is not MISS]
        if isinstance(s, int) and not isinstance(d, list):
            raise Skip()
        d = sub(d, s)
        if d is MISS:
            return MISS
    return d


COUNT = {"hit": 0, "miss": 0, "changed": 0}


def extract(d, *ps):
    d = document(d)
    vals = [get(d, steps_of(p)) for p in ps]
    for v in vals:
        COUNT["miss" if v is MISS else "hit"] += 1
    vals = [None if v is MISS else v for v in vals]
    return vals[0] if len(ps) == 1 else vals


def put(d, steps, v):
    if not steps:
        return v
    s = steps[0]
    if s == "*" or (isinstance(s, int) and not isinstance(d, list)):
        raise Skip()
    here = sub(d, s)
    if here is not MISS:
        d[s] = put(here, steps[1:], v)
    elif len(steps) == 1:
        if isinstance(s, int):
            d.append(v)
        elif isinstance(d, dict):
            d[s] = v
    return d


def jset(d, *pv):
    if d is None or None in pv[::2]:
        raise Skip() if d is not None else Null()
    d = document(d)
    before = json.dumps(d)
    for p, v in zip(pv[::2], pv[1::2]):
        if d is None:
            raise Skip()
        d = put(d, steps_of(p), copy.deepcopy(v))
    COUNT["changed"] += json.dumps(d, default=str) != before
    return d


def remove(d, *ps):
    d = document(d)
    before = json.dumps(d)
    for p in ps:
        steps = steps_of(p)
        if not steps or "*" in steps:
            raise Skip()
        parent = get(d, steps[:-1])
        if isinstance(steps[-1], int) and parent is not MISS and not isinstance(parent, list):
            raise Skip()
        if parent is not MISS and sub(parent, steps[-1]) is not MISS:
            del parent[steps[-1]]
    COUNT["changed"] += json.dumps(d) != before
    return d


def append(d, *pv):
    if d is None or None in pv[::2]:
        raise Skip() if d is not None else Null()
    d = document(d)
    for p, v in zip(pv[::2], pv[1::2]):
        here = get(d, steps_of(p))
        if "*" in p:
            raise Skip()
        if here is not MISS and not isinstance(here, list):
            raise Skip()
        if here is not MISS:
            here.append(copy.deepcopy(v))
    return d


def holds(t, c):
    if isinstance(t, list):
        if isinstance(c, list):
            return all(any(holds(x, y) for x in t) for y in c)
        return any(holds(x, c) for x in t)
    if isinstance(t, dict):
        return isinstance(c, dict) and all(k in t and holds(t[k], c[k]) for k in c)
    if isinstance(c, (list, dict)):
        return False
    return isinstance(t, bool) == isinstance(c, bool) and t == c


def contains(d, c, *p):
    d, c = document(d), parsed(c)
    if c is None:
        raise Skip()
    t = get(d, steps_of(p[0])) if p else d
    if t is MISS:
        raise Null()
    return 1 if holds(t, c) else 0


def contains_path(d, mode, *ps):
    d = document(d)
    found = [get(d, steps_of(p)) is not MISS for p in ps]
    for f in found:
        COUNT["hit" if f else "miss"] += 1
    return int((any if mode.lower() == "one" else all)(found))


def keys(d, *p):
    if d is None or None in p:
        raise Skip() if d is not None else Null()
    d = document(d)
    t = get(d, steps_of(p[0])) if p else d
    return list(t) if isinstance(t, dict) else []


def length(d, *p):
    if d is None or None in p:
        raise Skip() if d is not None else Null()
    d = document(d)
    t = get(d, steps_of(p[0])) if p else d
    return len(t) if isinstance(t, (dict, list)) else 0


def depth(d):
    d = document(d)

    def f(x):
        kids = list(x.values()) if isinstance(x, dict) else x if isinstance(x, list) else []
        return 1 + max([f(k) for k in kids], default=0)
    return f(d)


def valid(v):
    if isinstance(v, str):
        try:
            json.loads(v)
        except ValueError:
            return 0
    return 1


def jobject(*kv):
    if any(k is None for k in kv[::2]):
        raise Skip()
    out = {}
    for k, v in zip(kv[::2], kv[1::2]):
        out[k] = copy.deepcopy(v)
    return out


# ------------------------------------------------------------------ regular expressions
ATOMS = ["a", "b", "c", "B", "1", ".", "[ab]", "[^a]", "[a-c]", "[0-9]", "\\d", "\\w", "(a|b)", "(ab)", "(?:bc|1)", "\\.", " ", "\u00e9"]


def pattern(rng):
    p = "".join(rng.choice(ATOMS) + rng.choice(["", "", "", "+", "*", "?", "{2}", "+?"]) for _ in range(rng.choice([1, 1, 2, 2, 3])))
    if rng.random() < 0.2:
        p = "^" + p
    if rng.random() < 0.2:
        p += "$"
    if rng.random() < 0.08:
        p += "|" + rng.choice(ATOMS)
    if rng.random() < 0.05:
        p = "\\b" + p
    return p


def subject(rng):
    return "".join(rng.choice("aaabbbccABC112 .\u00e9\n" if rng.random() < 0.15 else "aaabbbcABC12 .") for _ in range(rng.choice([0, 1, 3, 5, 8, 12])))


def flags(m):
    f = re.I
    for c in m or "":
        f = {"c": f & ~re.I, "i": f | re.I, "m": f | re.M, "n": f | re.S}[c]
    return f


def finds(s, p, pos, m):
    """the matches in order; the subject is searched from character position pos, anchors refer to the whole subject"""
    s, p = text(s), text(p)
    if pos is not None and (pos < 1 or pos > len(s) + 1):
        raise Skip()
    rx = re.compile(p, flags(m))
    out, at, n = [], (pos or 1) - 1, len(s)
    while at <= n:
        x = rx.search(s, at)
        if not x:
            break
        if x.end() == x.start():
            raise Skip()              # empty matches: engines differ
        out.append(x)
        at = x.end()
    return s, out


def text(v):
    if isinstance(v, bool) or not isinstance(v, (str, int)):
        raise Skip()
    return str(v)


def like_(s, p, m=None):
    return 1 if re.compile(text(p), flags(m)).search(text(s)) else 0


def instr(s, p, pos=1, occ=1, ret=0, m=None):
    s, f = finds(s, p, pos, m)
    if occ < 1:
        raise Skip()
    return 0 if len(f) < occ else (f[occ - 1].end() if ret else f[occ - 1].start()) + 1


def substr(s, p, pos=1, occ=1, m=None):
    s, f = finds(s, p, pos, m)
    if occ < 1:
        raise Skip()
    if len(f) < occ:
        raise Null()
    return f[occ - 1].group()


def replace(s, p, r, pos=1, occ=0, m=None):
    s, f = finds(s, p, pos, m)
    r = text(r)
    if occ < 0 or "\\" in r:
        raise Skip()
    pick = f if occ == 0 else f[occ - 1:occ]
    out, at = "", 0
    for x in pick:
        out += s[at:x.start()] + r
        at = x.end()
    return out + s[at:]


def lenient(f, n):
    """NULL when one of the first n arguments is; the meaning of a NULL optional argument is not specified"""
    def ref(*a):
        if any(v is None for v in a[:n]):
            raise Null()
        if any(v is None for v in a):
            raise Skip()
        return f(*a)
    return ref


def opt(base, *more):
    """base arguments followed by a prefix of the optional ones"""
    return lambda rng: list(base) + [k(rng) if callable(k) else k for k in more[:rng.choice([0, 0] + list(range(len(more) + 1)))]]


def rep(lo, hi, *unit, first=()):
    return lambda rng: list(first) + [u for _ in range(rng.randint(lo, hi)) for u in unit]


MODES = lambda rng: ("lit", rng.choice(["c", "i", "ci", "ic", "n", "mi", "cm", "cn", "m"]))
NULLABLE = dict(nullable=True)
FNS = [
    Fn("json_extract", rep(1, 2, "p", first=["d"]), extract, "d", w=3),
    Fn("json_extract_op", ["j", "pl"], lambda d, p: extract(d, p), "d", sql=lambda a, b: "(%s->%s)" % (a, b)),
    Fn("json_set", rep(1, 2, "p", "v", first=["d"]), jset, "d", w=3, **NULLABLE),
    Fn("json_remove", rep(1, 2, "p", first=["d"]), remove, "d", w=2),
    Fn("json_array_append", rep(1, 2, "p", "v", first=["d"]), append, "d", **NULLABLE),
    Fn("json_contains", opt(["d", "cand"], "p"), lenient(contains, 2), "i", w=2, **NULLABLE),
    Fn("json_contains_path", lambda rng: ["d", ("lit", rng.choice(["one", "all", "ONE", "All"]))] + ["p"] * rng.randint(1, 3), lenient(contains_path, 2), "i", w=2, **NULLABLE),
    Fn("json_keys", opt(["d"], "p"), keys, "d", **NULLABLE),
    Fn("json_length", opt(["d"], "p"), length, "i", **NULLABLE),
    Fn("json_depth", ["d"], depth, "i"),
    Fn("json_valid", ["txt"], valid, "i"),
    Fn("json_encode", ["d"], lambda d: json.dumps(d, ensure_ascii=False), "s", **NULLABLE),
    Fn("json_decode", ["txt"], lambda t: json.loads(t) if valid(t) else None, "d"),
    Fn("json_array", rep(0, 4, "v"), lambda *a: [copy.deepcopy(x) for x in a], "d", **NULLABLE),
    Fn("json_object", rep(0, 3, "key", "v"), jobject, "d", **NULLABLE),
    Fn("regexp", ["s", "r"], like_, "i", sql=lambda a, b: "(%s REGEXP %s)" % (a, b)),
    Fn("not_regexp", ["s", "r"], lambda a, b: 1 - like_(a, b), "i", sql=lambda a, b: "(%s NOT REGEXP %s)" % (a, b)),
    Fn("rlike", ["s", "r"], like_, "i", sql=lambda a, b: "(%s RLIKE %s)" % (a, b)),
    Fn("regexp_like", opt(["s", "r"], MODES), lenient(like_, 2), "i", w=2, **NULLABLE),
    Fn("regexplike", opt(["s", "r"], MODES), lenient(like_, 2), "i", **NULLABLE),
    Fn("regexp_instr", opt(["s", "r"], "pos", "occ", "ret", MODES), lenient(instr, 2), "i", w=3, **NULLABLE),
    Fn("regexp_substr", opt(["s", "r"], "pos", "occ", MODES), lenient(substr, 2), "s", w=3, **NULLABLE),
    Fn("regexp_replace", opt(["s", "r", "rs"], "pos", "occ0", MODES), lenient(replace, 3), "s", w=3, **NULLABLE),
]


def jsontext(rng):
    return json.dumps(doc(rng), ensure_ascii=rng.random() < 0.3)


KINDS = {
    "d": (["j", "jt"], jsontext, {"d"}),
    "j": (["j", "jt"], jsontext, set()),
    "p": (["p", "q"], lambda rng: path(rng), set()),
    "pl": ([], lambda rng: path(rng), set()),
    "v": (["v", "w", "j"], lambda rng: rng.choice([1, 7, "new", "x y", "", 2.5, "\u00fc"]), {"d", "i"}),
    "cand": (["cand"], lambda rng: json.dumps(doc(rng, rng.choice([0, 1]))), set()),
    "key": ([], lambda rng: rng.choice(KEYS), set()),
    "txt": (["jt", "junk"], lambda rng: rng.choice(["{", "[1,]", "nope", '"s"', "1", "{}", '{"a": }', "", "true", "'a'"]), set()),
    "s": (["s", "num"], subject, set()),
    "r": (["r"], pattern, set()),
    "rs": (["rs"], lambda rng: rng.choice(["", "X", "<>", "ab", "$1", "\u00e9"]), set()),
    "pos": (["pos"], lambda rng: rng.choice([1, 1, 2, 3, 5]), set()),
    "occ": (["occ"], lambda rng: rng.choice([1, 1, 2, 3]), set()),
    "occ0": (["occ"], lambda rng: rng.choice([0, 0, 1, 2, 3]), set()),
    "ret": ([], lambda rng: rng.choice([0, 1]), set()),
}


class Suite(funcs.Suite):
    def rows(self, rng, n, nulls=0.06):
        out = super().rows(rng, n, nulls)
        for r in out:
            d = doc(rng)
            if r["j"] is not None:
                r["j"] = d
            if r["jt"] is not None:
                r["jt"] = json.dumps(d if rng.random() < 0.6 else doc(rng), ensure_ascii=rng.random() < 0.5)
            for c in ("p", "q"):
                if r[c] is not None and rng.random() < 0.8:
                    r[c] = path(rng, d, wild=rng.random() < 0.3)
            if r["cand"] is not None and rng.random() < 0.7:
                here = d
                for s in steps_of(path(rng, d)):
                    nxt = sub(here, s)
                    if nxt is MISS:
                        break
                    here = nxt
                if isinstance(here, dict) and here and rng.random() < 0.5:
                    here = {k: here[k] for k in rng.sample(list(here), rng.randint(1, len(here)))}
                if isinstance(here, list) and here and rng.random() < 0.5:
                    here = rng.sample(here, rng.randint(1, len(here)))
                r["cand"] = json.dumps(here)
            if r["v"] is not None and rng.random() < 0.3:
                r["v"] = doc(rng, 1)
            if r["num"] is not None:
                r["num"] = rng.choice([1, 12, 1121, 0, 210])
        return out


SUITE = Suite(FNS, KINDS)
CTX = ("select",) * 6 + ("where", "case", "insert", "const")


def same(g, w):
    if isinstance(w, bool):
        return g is w
    if isinstance(w, dict):
        return isinstance(g, dict) and list(sorted(g)) == sorted(w) and all(same(g[k], w[k]) for k in w)
    if isinstance(w, (list, tuple)):
        return isinstance(g, list) and len(g) == len(w) and all(same(a, b) for a, b in zip(g, w))
    if isinstance(g, (bool, dict, list)):
        return False
    return funcs.same(g, w)


def make(rng, i, tier):
    case = SUITE.make(rng, CTX)
    if case["ctx"] in ("case", "where") and SUITE.fns[case["ex"][0][1]].ret == "d":
        case["ctx"] = "select"       # arrays are unpacked by IFNULL and comparisons
    return case


def run(case, obs):
    for k in COUNT:
        COUNT[k] = 0
    before = copy.deepcopy(case["rows"])
    SUITE.run(case, obs, same)
    if case["rows"] != before:
        obs.fail("source", "a source row was changed", sql=[SUITE.sql(x) for x in case["ex"]], before=before, after=case["rows"])
    obs.hit("path_hit", COUNT["hit"])
    obs.hit("path_miss", COUNT["miss"])
    obs.hit("doc_changed", COUNT["changed"])
