"""C17: numeric functions against reference definitions."""
import math
from vlib import funcs
from vlib.funcs import Fn, Skip, Null

META = {"id": "C17", "sizes": {"quick": 36000, "thorough": 200000},
        "rule": "random tables (ints incl. 0/negative/2^40, floats incl. huge/tiny/boundary, numeric strings, booleans, NULLs) x calls of every documented numeric and bit function and operator with column, literal and nested arguments, in the select list, WHERE, GROUP BY key, ORDER BY key, CASE/IFNULL, aggregate argument and table-less SELECT; non-trivial = value differs between rows; distinct by (SQL, values)",
        "required": {"values": 10000, "null_values": 400, "nonnull_values": 5000},
        "note": "References are written from the mathematical definitions (python math and integers); float results are compared at 1e-9 relative."}


def num(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, str):
        return float(v) if "." in v else int(v)
    return v


def integral(v):
    v = num(v)
    if isinstance(v, float):
        if v != int(v):
            raise Skip()
        v = int(v)
    return v


def m1(f):
    def ref(x):
        try:
            return f(num(x))
        except (ValueError, ZeroDivisionError):
            raise Null()
        except OverflowError:
            raise Skip()
    return ref


def rround(x, d):
    from fractions import Fraction as F
    from decimal import Decimal
    x, d = num(x), num(d)
    if isinstance(d, float):
        raise Skip()
    q = F(repr(x) if isinstance(x, float) else x) * F(10) ** d
    lo = math.floor(q)
    if q - lo == F(1, 2) and q != lo:
        raise Skip()                       # ties: exact and approximate numbers round differently
    return float(F(lo if q - lo < F(1, 2) else lo + 1) / F(10) ** d)


def pick(best):
    def ref(*a):
        if all(isinstance(v, str) for v in a):
            raise Skip()
        return best(num(v) for v in a)
    return ref


def rpow(x, y):
    x, y = num(x), num(y)
    if x == 0 and y < 0 or x < 0 and y != int(y):
        raise Null()
    try:
        v = math.pow(x, y)
    except OverflowError:
        raise Null()
    return v


def rlog(x, b):
    x, b = num(x), num(b)
    if x <= 0 or b <= 0 or b == 1:
        raise Null()
    return math.log(x) / math.log(b)


def rmod(x, y):
    x, y = num(x), num(y)
    if y == 0:
        raise Null()
    if isinstance(x, int) and isinstance(y, int):
        return int(math.copysign(1, x)) * (abs(x) % abs(y))
    return math.fmod(x, y)


def shift(left):
    def ref(x, n):
        x, n = integral(x), integral(n)
        return x << n if left else x >> n
    return ref


def i2(f):
    return lambda x, y: f(integral(x), integral(y))


def base(b):
    def ref(x):
        v = integral(x)
        if not -2 ** 63 <= v < 2 ** 64:
            raise Skip()
        if v < 0:
            v += 1 << 64
        return format(v, b)
    return ref


def rdiv(x, y):
    x, y = num(x), num(y)
    if y == 0:
        raise Null()
    return x / y


def op(o):
    return lambda a, b: "(%s %s %s)" % (a, o, b)


FNS = [Fn("abs", ["n"], m1(abs), "num"), Fn("sign", ["n"], m1(lambda x: (x > 0) - (x < 0)), "int"),
       Fn("ceil", ["n"], m1(math.ceil), "int"), Fn("ceiling", ["n"], m1(math.ceil), "int"), Fn("floor", ["n"], m1(math.floor), "int"),
       Fn("round", ["n", "d"], rround, "num"), Fn("round1", ["n"], lambda x: rround(x, 0), "num", sql=lambda x: "round(%s)" % x),
       Fn("sqrt", ["n"], m1(math.sqrt), "num"), Fn("exp", ["small"], m1(math.exp), "num"), Fn("ln", ["n"], m1(math.log), "num"),
       Fn("log", ["n", "pos"], rlog, "num"), Fn("log1", ["n"], lambda x: rlog(x, 10), "num", sql=lambda x: "log(%s)" % x),
       Fn("pow", ["small", "exp"], rpow, "num"), Fn("power", ["small", "exp"], rpow, "num"),
       Fn("sin", ["n"], m1(math.sin), "num"), Fn("cos", ["n"], m1(math.cos), "num"), Fn("tan", ["small"], m1(math.tan), "num"),
       Fn("asin", ["unit"], m1(math.asin), "num"), Fn("acos", ["unit"], m1(math.acos), "num"), Fn("atan", ["n"], m1(math.atan), "num"),
       Fn("pi", [], lambda: math.pi, "num"),
       Fn("greatest", lambda r: ["n"] * r.randint(2, 5), pick(max), "num"), Fn("least", lambda r: ["n"] * r.randint(2, 5), pick(min), "num"),
       Fn("mod", ["n", "small"], rmod, "num"),
       Fn("bitwiseand", ["i", "i"], i2(lambda x, y: x & y), "int"), Fn("bitwiseor", ["i", "i"], i2(lambda x, y: x | y), "int"),
       Fn("bitwisexor", ["i", "i"], i2(lambda x, y: x ^ y), "int"), Fn("bitwisenot", ["i"], lambda x: ~integral(x), "int"),
       Fn("bitwiseleftshift", ["i", "sh"], shift(True), "int"), Fn("bitwiserightshift", ["i", "sh"], shift(False), "int"),
       Fn("&", ["i", "i"], i2(lambda x, y: x & y), "int", sql=op("&")), Fn("|", ["i", "i"], i2(lambda x, y: x | y), "int", sql=op("|")),
       Fn("^", ["i", "i"], i2(lambda x, y: x ^ y), "int", sql=op("^")), Fn("~", ["i"], lambda x: ~integral(x), "int", sql=lambda x: "(~%s)" % x),
       Fn("<<", ["i", "sh"], shift(True), "int", sql=op("<<")), Fn(">>", ["i", "sh"], shift(False), "int", sql=op(">>")),
       Fn("bin", ["i"], base("b"), "str"), Fn("oct", ["i"], base("o"), "str"), Fn("hex", ["ii"], base("X"), "str"),
       Fn("+", ["n", "n"], lambda x, y: num(x) + num(y), "num", sql=op("+")), Fn("-", ["n", "n"], lambda x, y: num(x) - num(y), "num", sql=op("-")),
       Fn("*", ["n", "n"], lambda x, y: num(x) * num(y), "num", sql=op("*")), Fn("/", ["n", "n"], rdiv, "num", sql=op("/")),
       Fn("%", ["n", "n"], rmod, "num", sql=op("%")), Fn("neg", ["n"], lambda x: -num(x), "num", sql=lambda x: "(- %s)" % x),
       # operators without parentheses: MySQL's precedence
       Fn("prec1", ["i", "i", "i"], lambda x, y, z: integral(x) | (integral(y) & integral(z)), "int", sql=lambda a, b, c: "(%s | %s & %s)" % (a, b, c)),
       Fn("prec2", ["i", "i", "i"], lambda x, y, z: integral(x) * (integral(y) ^ integral(z)), "int", sql=lambda a, b, c: "(%s * %s ^ %s)" % (a, b, c)),
       Fn("prec3", ["i", "sh", "i"], lambda x, y, z: (integral(x) << integral(y)) & integral(z), "int", sql=lambda a, b, c: "(%s & %s << %s)" % (c, a, b)),
       Fn("prec4", ["i", "i", "sh"], lambda x, y, z: (integral(x) + integral(y)) << integral(z), "int", sql=lambda a, b, c: "(%s + %s << %s)" % (a, b, c)),
       Fn("prec5", ["i", "i", "i"], lambda x, y, z: ~integral(x) & (integral(y) - integral(z)), "int", sql=lambda a, b, c: "(~%s & %s - %s)" % (a, b, c)),
       ]


def gi(r):
    return r.choice([0, 1, 2, 3, 5, 7, 8, 15, 16, 255, 256, 1000, -1, -2, -7, -16, 2 ** 31, 2 ** 40 + 5, 2 ** 60 + 1, r.randint(-60, 60)])


def gf(r):
    return r.choice([0.0, 0.5, 1.25, -0.5, 2.75, -3.25, 10.1, 99.999, 0.001, -0.004, 123456.789, round(r.uniform(-50, 50), r.randint(1, 5))])


def gs(r):
    return r.choice(["0", "1", "12", "-3", "2.5", "100", "0.25", "-7.75", "64", "-0.5", "0.999", "-0.125", "007", "-12"])


def n(r):
    k = r.random()
    return gi(r) if k < 0.45 else gf(r) if k < 0.85 else gs(r)


def gis(r):
    return r.choice(["0", "1", "7", "12", "-3", "-16", "255", "1000"]) if r.random() < 0.2 else gi(r)


KINDS = {"i": (["i1", "i2", "it"], gis, {"int"}), "f": (["f1", "f2"], gf, {"num"}), "s": (["s1"], gs, None), "b": (["b1"], lambda r: r.random() < 0.5, None),
         "ii": (["i3", "i4"], gi, {"int"}),
         "n": (["i1", "i3", "f1", "f2", "s1", "b1"], n, {"int", "num"}),
         "small": (["sm"], lambda r: r.choice([0, 1, 2, 3, -1, -2, 0.5, -1.5, 4, 7, "2", "1.5"]), None),
         "exp": (["ex"], lambda r: r.choice([0, 1, 2, 3, 5, -1, -2, 0.5, 1.5, "2"]), None),
         "pos": (["po"], lambda r: r.choice([2, 10, 3, 0.5, 1, 0, -2, 7.5, "2"]), None),
         "unit": (["un"], lambda r: r.choice([0, 1, -1, 0.5, -0.5, 0.999, 1.5, -2, "0.5", round(r.uniform(-1, 1), 4)]), None),
         "d": (["dg"], lambda r: r.choice([0, 1, 2, 3, -1, -2]), None), "sh": (["sh"], lambda r: r.randint(0, 12), None)}
SUITE = funcs.Suite(FNS, KINDS)
META["required"].update({"fn_" + f.name: 20 for f in FNS})


def make(rng, i, tier):
    return SUITE.make(rng)


def run(case, obs):
    SUITE.run(case, obs)
