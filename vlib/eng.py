"""Access to the system under test. Imported lazily: the harness sets up the environment first."""
import datetime, decimal, math

_SE = None


def ScriptEngine(config=None):
    global _SE
    if _SE is None:
        from syncanysql import ScriptEngine as SE
        _SE = SE
    e = _SE(config)
    e.setup()
    return e


def engine(tables=None, config=None, settings=None):
    e = ScriptEngine(config)
    for k, v in (tables or {}).items():
        if v:
            e.push_memory_datas(k, [dict(r) for r in v])
    for k, v in (settings or {}).items():
        e.set_variable(k, v)
    return e


def query(e, sql, out="vout"):
    """Rows of a SELECT (run as INSERT INTO a memory table, which is read back and removed)."""
    e.execute("INSERT INTO `%s` %s" % (out, sql))
    return e.pop_memory_datas(out)


def memory_tables(e):
    """name -> rows currently held by the engine's memory database (read-only snapshot)."""
    out = {}
    for f in list(e.manager.database_manager.factorys.values()):
        if type(f).__name__ != "MemoryDBFactory":
            continue
        for d in f.drivers:
            for name, rows in dict(d.instance).items():
                try:
                    out[name] = [dict(r) for r in rows]
                except Exception:
                    out[name] = list(rows)
    return out


class Raised:
    """An exception that came out of the system under test."""

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "<raised %s: %s>" % (type(self.e).__name__, str(self.e)[:300])


def attempt(f, *args):
    try:
        return f(*args)
    except Exception as e:
        return Raised(e)


# ---------------------------------------------------------------- comparison
def norm(v):
    """Canonical form: numbers compared numerically (bool = 0/1), strings/bytes/dates by type and value."""
    if v is None:
        return None
    if isinstance(v, bool):
        return ("n", float(int(v)))
    if isinstance(v, (int, float, decimal.Decimal)):
        f = float(v)
        if isinstance(v, int) and abs(v) > 2 ** 53:
            return ("i", v)
        if f == f and not math.isinf(f):
            f = float("%.9g" % f) if f else 0.0
        return ("n", f) if f == f else ("nan",)
    if isinstance(v, str):
        return ("s", v)
    if isinstance(v, bytes):
        return ("b", v)
    if isinstance(v, datetime.datetime):
        return ("dt", v.replace(tzinfo=None).isoformat())
    if isinstance(v, datetime.date):
        return ("d", v.isoformat())
    if isinstance(v, datetime.time):
        return ("t", v.replace(tzinfo=None).isoformat())
    if isinstance(v, (list, tuple)):
        return ("l",) + tuple(norm(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return ("set",) + tuple(sorted((norm(x) for x in v), key=repr))
    if isinstance(v, dict):
        return ("m",) + tuple(sorted(((str(k), norm(x)) for k, x in v.items()), key=lambda p: p[0]))
    return ("?", type(v).__name__, str(v))


def nrow(r):
    return tuple(sorted(((k, norm(v)) for k, v in r.items()), key=lambda p: p[0])) if isinstance(r, dict) else norm(r)


def same_rows(a, b, ordered=False):
    if isinstance(a, Raised) or isinstance(b, Raised):
        return False
    x, y = [nrow(r) for r in a], [nrow(r) for r in b]
    if ordered:
        return x == y
    return sorted(x, key=repr) == sorted(y, key=repr)
