"""Statements of every kind, taken from the generators of the relational checks, for checks that compare executions with each other."""
import copy
from vlib import sqlmodel as M
from checks import c04_where, c05_project, c06_joins, c07_group, c08_sets, c09_order, c10_nest, c11_windows

KINDS = ["where", "project", "join", "group", "sets", "order", "nest", "window"]


def statement(rng, i, tier, kind=None):
    """{kind, tables, sqls, ordered: [bool], qs}"""
    kind = kind or rng.choice(KINDS + ["join", "group", "group", "nest"])
    if kind == "where":
        c = c04_where.make(rng, i, tier)
        q = {"select": [(("col", c["alias"], x), x) for x in ["id"] + list(c04_where.COLS)], "from_": (("table", "t1"), c["alias"]), "where": c["pred"]}
        return pack(kind, {"t1": c["rows"]}, [q])
    if kind == "project":
        c = c05_project.make(rng, i, tier)
        if c.get("star"):
            q = {"select": "*", "from_": (("table", "t1"), c["alias"])}
        else:
            q = {"select": c["sel"], "from_": (("table", "t1"), c["alias"]), "force_as": c["force_as"]}
        return pack(kind, {"t1": c["rows"]}, [q])
    if kind == "order":
        c = c09_order.make(rng, i, tier)
        s = {"kind": kind, "tables": c["tables"], "sqls": [c09_order.text(c["q"], c, True, True, False)], "ordered": [bool(c["order"])], "qs": None}
        return s
    if kind == "nest":
        c = c10_nest.make(rng, i, tier)
        qs = [x[0] for x in c["stmts"]]
        c10_nest.fill(qs)
        return pack(kind, c["tables"], qs)
    mod = {"join": c06_joins, "group": c07_group, "sets": c08_sets, "window": c11_windows}[kind]
    c = mod.make(rng, i, tier)
    return pack(kind, c["tables"], [c["q"]])


def pack(kind, tables, qs):
    return {"kind": kind, "tables": tables, "sqls": [M.qsql(q) for q in qs], "ordered": [bool(q.get("order")) for q in qs], "qs": qs}
