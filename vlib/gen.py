"""Random tables and expressions for the relational checks."""

STRS = ["a", "b", "ab", "Abc", "abc", "", "x y", "a%b", "b_c", "é", "中文", "0", "12", "zz", "B", "a.c", "ab'c", "q\"r"]
LIKES = ["a%", "%b", "%b%", "abc", "%", "a%c", "%y", "x%", "%c%", "z%z", "zz"]


def ival(rng):
    return rng.choice([0, 1, 2, 3, 4, 5, 7, 10, -1, -3, rng.randint(-20, 30)])


def fval(rng):
    return rng.choice([0.0, 0.5, 1.5, 2.25, -0.75, 3.0, 10.5, round(rng.uniform(-20, 20), 2)])


def sval(rng, pool=STRS):
    return rng.choice(pool)


TYPES = {"i": ival, "f": fval, "s": sval}


def table(rng, cols, n, nulls=0.2, idcol="id"):
    """cols: {name: type}; the id column is unique and never NULL."""
    rows = []
    ids = list(range(1, n + 1))
    if rng.random() < 0.5:
        rng.shuffle(ids)
    for i in range(n):
        r = {idcol: ids[i]} if idcol else {}
        for c, t in cols.items():
            if t == "k":
                v = rng.randint(0, 3)
            else:
                v = TYPES[t](rng)
            r[c] = None if rng.random() < nulls else v
        rows.append(r)
    return rows


def nrows(rng):
    return rng.choice([0, 1, 2, 3, 5, 8, 8, 12, 20])


class Ex:
    """Typed expression generator over columns [(alias, name, type)]; types i f s."""

    def __init__(self, rng, cols, funcs=True, strs=None):
        self.rng, self.cols, self.funcs, self.strs = rng, cols, funcs, strs or STRS

    def col(self, types):
        c = [x for x in self.cols if x[2] in types]
        if not c:
            return None
        a, n, _ = self.rng.choice(c)
        return ("col", a, n)

    def lit(self, t):
        r = self.rng
        return ("lit", ival(r) if t == "i" else fval(r) if t == "f" else sval(r, self.strs))

    def numeric(self, d):
        r = self.rng
        if d <= 0 or r.random() < 0.3:
            c = self.col("if")
            if c and r.random() < 0.7:
                return c
            return self.lit(r.choice("iif"))
        k = r.random()
        if k < 0.6:
            return ("bin", r.choice(["+", "-", "*", "+", "-", "/", "%"]), self.numeric(d - 1), self.numeric(d - 1))
        if k < 0.66:
            return ("neg", self.numeric(d - 1))
        if k < 0.74:
            return ("if", self.pred(d - 1), self.numeric(d - 1), self.numeric(d - 1))
        if k < 0.80:
            return ("ifnull", self.numeric(d - 1), self.numeric(d - 1))
        if k < 0.85:
            if r.random() < 0.3:               # several columns, so that the first value may stand anywhere
                cs = [c for c in (self.col("if") for _ in range(r.randint(2, 5))) if c]
                return ("coalesce", cs + [self.lit("i")]) if cs else self.lit("i")
            return ("coalesce", [self.numeric(d - 1) for _ in range(r.choice([2, 2, 3, 3, 4, 5]))])
        if k < 0.92:
            return ("case", None, [(self.pred(d - 1), self.numeric(d - 1)) for _ in range(r.randint(1, 3))], self.numeric(d - 1))
        if self.funcs:
            return ("func", "abs", [self.numeric(d - 1)])
        return self.numeric(d - 1)

    def string(self, d):
        r = self.rng
        if d <= 0 or r.random() < 0.4:
            c = self.col("s")
            if c and r.random() < 0.7:
                return c
            return self.lit("s")
        k = r.random()
        if k < 0.3:
            return ("func", r.choice(["upper", "lower", "reverse"]), [self.string(d - 1)])
        if k < 0.5:
            return ("func", "concat", [self.string(d - 1), self.string(d - 1)])
        if k < 0.65:
            return ("if", self.pred(d - 1), self.string(d - 1), self.string(d - 1))
        if k < 0.8:
            return ("ifnull", self.string(d - 1), self.string(d - 1))
        return ("case", None, [(self.pred(d - 1), self.string(d - 1)) for _ in range(r.randint(1, 2))], self.string(d - 1))

    def atom(self, d):
        """A simple predicate."""
        r = self.rng
        k = r.random()
        op = r.choice(["=", "!=", "<", "<=", ">", ">="])
        c = self.col("if") or self.lit("i")
        if k < 0.25:
            a, b = c, self.lit(r.choice("iif"))
            return ("bin", op, b, a) if r.random() < 0.25 else ("bin", op, a, b)
        if k < 0.38:
            s = self.col("s") or self.lit("s")
            a, b = s, self.lit("s")
            return ("bin", op, b, a) if r.random() < 0.25 else ("bin", op, a, b)
        if k < 0.46:
            return ("bin", op, c, self.col("if") or self.lit("i"))
        if k < 0.56:
            if r.random() < 0.6:
                items = [self.lit("i") for _ in range(r.randint(1, 4))]
            else:
                c = self.col("s") or self.lit("s")
                items = [self.lit("s") for _ in range(r.randint(1, 4))]
            return ("in", c, items, r.random() < 0.3)
        if k < 0.66:
            lo, hi = self.lit("i"), self.lit("i")
            return ("between", c, lo, hi, r.random() < 0.3)
        if k < 0.74:
            if r.random() < 0.2:
                return ("istrue", self.col("if") or self.lit("i") if d <= 0 or r.random() < 0.6 else self.pred(d - 1), r.random() < 0.5, r.random() < 0.4)
            return ("isnull", self.col("ifs") or self.lit("i"), r.random() < 0.5)
        if k < 0.82:
            s = self.col("s") or self.lit("s")
            return ("like", s, r.choice(LIKES), r.random() < 0.25)
        if d > 0:
            return ("bin", op, self.numeric(d - 1), self.numeric(d - 1))
        return ("bin", op, c, self.lit("i"))

    def pred(self, d):
        r = self.rng
        if d <= 0 or r.random() < 0.35:
            return self.atom(d)
        k = r.random()
        if k < 0.45:
            return ("bin", "and", self.pred(d - 1), self.pred(d - 1))
        if k < 0.8:
            return ("bin", "or", self.pred(d - 1), self.pred(d - 1))
        if k < 0.93:
            return ("not", self.pred(d - 1))
        return ("par", self.pred(d - 1))


def jitted(rng, e, p=0.4):
    """Some arithmetic and BETWEEN parts of an expression computed by jit()."""
    if not isinstance(e, tuple) or e[0] in ("sub", "exists", "insub", "scalar"):
        return e
    r = tuple(jitted(rng, x, p) if isinstance(x, tuple) else x for x in e)
    if r[0] == "between" or (r[0] == "bin" and r[1] in ("+", "-", "*", "/")):
        return ("jit", r) if rng.random() < p else r
    return r
