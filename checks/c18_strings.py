"""C18: string functions against MySQL's definitions."""
import base64, binascii, datetime, ipaddress, zlib
from vlib import funcs
from vlib.funcs import Fn, Skip, Null

META = {"id": "C18", "sizes": {"quick": 30000, "thorough": 250000},
        "rule": "random tables of text (empty, blank-padded, multi-byte, emoji, with separators, wildcards, quotes, backslashes, numerals) x calls of every documented string function with column, literal and nested arguments, positions and counts from -3 to beyond the length, numbers and dates where text is expected, NULLs; in the select list, WHERE, GROUP BY key, ORDER BY key, CASE/IFNULL, aggregate argument and table-less SELECT; non-trivial = value differs between rows; distinct by (SQL, values)",
        "required": {"values": 10000, "null_values": 400, "nonnull_values": 5000},
        "note": "References are written from MySQL's manual on python strings (characters) and their UTF-8 encodings (bytes)."}


def text(v):
    if isinstance(v, bool):
        return "1" if v else "0"
    if isinstance(v, datetime.datetime):
        return v.strftime("%Y-%m-%d %H:%M:%S")
    if isinstance(v, (datetime.date, datetime.time)):
        return v.isoformat()
    if isinstance(v, bytes):
        raise Skip()
    return str(v)


def integer(v):
    return int(v)


def on(f, *conv):
    conv = {"s": text, "i": integer}[conv[0]] if len(conv) == 1 else [{"s": text, "i": integer}[c] for c in conv]

    def ref(*a):
        return f(*[(conv[k] if isinstance(conv, list) else conv)(v) for k, v in enumerate(a)])
    return ref


def substring(s, n, l=None):
    start = n - 1 if n > 0 else len(s) + n
    if n == 0 or start < 0:
        return ""
    return s[start:] if l is None else s[start:start + max(0, l)]


def sub_index(s, d, c):
    if not d or not c:
        return ""
    parts = s.split(d)
    return d.join(parts[:c] if c > 0 else parts[c:])


def insert(s, p, l, t):
    if p < 1 or p > len(s):
        return s
    if l < 0 or p + l > len(s) + 1:
        return s[:p - 1] + t
    return s[:p - 1] + t + s[p - 1 + l:]


def concat_ws(sep, *a):
    if sep is None:
        raise Null()
    return text(sep).join(text(v) for v in a if v is not None)


def elt(n, *a):
    n = None if n is None else int(n)
    if n is None or not 1 <= n <= len(a):
        return None
    return a[n - 1]


def field(s, *a):
    if s is None:
        return 0
    for i, v in enumerate(a):
        if v is not None and v == s:
            return i + 1
    return 0


def find_in_set(s, ss):
    return ss.split(",").index(s) + 1 if ss and s in ss.split(",") else 0


def case(f):
    def ref(s):
        if any(len(f(c)) != 1 for c in s):
            raise Skip()
        return f(s)
    return ref


def unb64(s):
    try:
        return base64.b64decode(s, validate=True).decode("utf-8")
    except (ValueError, binascii.Error, UnicodeDecodeError):
        raise Skip()


def aton(v):
    def ref(s):
        if v == 4 and 0 < s.count(".") < 3:
            raise Skip()                       # short forms are accepted
        try:
            return (ipaddress.IPv4Address if v == 4 else ipaddress.IPv6Address)(s).packed.hex()
        except ValueError:
            raise Null()
    return ref


def ntoa(v):
    def ref(h):
        a = (ipaddress.IPv4Address if v == 4 else ipaddress.IPv6Address)(bytes.fromhex(h))
        if v == 6 and a.ipv4_mapped:
            raise Skip()
        return str(a)
    return ref


def is_ip(v):
    def ref(s):
        try:
            (ipaddress.IPv4Address if v == 4 else ipaddress.IPv6Address)(s)
            return 1
        except ValueError:
            return 0
    return ref


def asc(s):
    return s.encode("utf-8")[0] if s else 0


def rord(s):
    if s and ord(s[0]) > 127:
        raise Skip()
    return ord(s[0]) if s else 0


FNS = [Fn("concat", lambda r: ["v"] * r.randint(2, 5), on(lambda *a: "".join(a), "s"), "s", w=2),
       Fn("concat_ws", lambda r: ["sep"] + ["v"] * r.randint(1, 5), concat_ws, "s", nullable=True), Fn("concatws", lambda r: ["sep"] + ["v"] * r.randint(1, 5), concat_ws, "s", nullable=True),
       Fn("lower", ["v"], on(case(str.lower), "s"), "s"), Fn("upper", ["v"], on(case(str.upper), "s"), "s"), Fn("ucase", ["v"], on(case(str.upper), "s"), "s"),
       Fn("lcase", ["v"], on(case(str.lower), "s"), "s"),
       Fn("left", ["v", "p"], on(lambda s, n: s[:max(n, 0)], "s", "i"), "s"), Fn("right", ["v", "p"], on(lambda s, n: s[max(0, len(s) - n):] if n > 0 else "", "s", "i"), "s"),
       Fn("trim", ["v"], on(lambda s: s.strip(" "), "s"), "s"), Fn("reverse", ["v"], on(lambda s: s[::-1], "s"), "s"),
       Fn("repeat", ["v", "c"], on(lambda s, n: s * max(n, 0), "s", "i"), "s"), Fn("replace", ["v", "t", "t"], on(lambda s, a, b: s.replace(a, b) if a else s, "s", "s", "s"), "s", w=2),
       Fn("substring", ["v", "p"], on(substring, "s", "i"), "s"), Fn("substr", ["v", "p", "p"], on(substring, "s", "i", "i"), "s"), Fn("substring3", ["v", "p", "p"], on(substring, "s", "i", "i"), "s", sql=lambda *a: "substring(%s, %s, %s)" % a),
       Fn("substr2", ["v", "p"], on(substring, "s", "i"), "s", sql=lambda *a: "substr(%s, %s)" % a),
       Fn("substring_from", ["v", "p", "p"], on(substring, "s", "i", "i"), "s", sql=lambda *a: "substring(%s FROM %s FOR %s)" % a),
       Fn("substring_index", ["v", "t", "k"], on(sub_index, "s", "s", "i"), "s", w=2), Fn("insert", ["v", "p", "p", "t"], on(insert, "s", "i", "i", "s"), "s", w=2),
       Fn("length", ["v"], on(lambda s: len(s.encode("utf-8")), "s"), "i"), Fn("bit_length", ["v"], on(lambda s: 8 * len(s.encode("utf-8")), "s"), "i"),
       Fn("char_length", ["v"], on(len, "s"), "i"), Fn("character_length", ["v"], on(len, "s"), "i"),
       Fn("ascii", ["v"], on(asc, "s"), "i"), Fn("ord", ["v"], on(rord, "s"), "i"),
       Fn("char", lambda r: ["code"] * r.randint(1, 4), lambda *a: "".join(chr(int(v)) for v in a if v is not None), "s", nullable=True),
       Fn("elt", lambda r: ["k"] + ["t"] * r.randint(1, 4), elt, "s", nullable=True), Fn("field", lambda r: ["t"] * r.randint(2, 5), field, "i", nullable=True),
       Fn("find_in_set", ["t", "set"], find_in_set, "i"), Fn("strcmp", ["v", "v"], on(lambda a, b: (a > b) - (a < b), "s"), "i"),
       Fn("startswith", ["v", "t"], on(lambda a, b: int(a.startswith(b)), "s"), "i"), Fn("endswith", ["v", "t"], on(lambda a, b: int(a.endswith(b)), "s"), "i"), Fn("contains", ["v", "t"], on(lambda a, b: int(b in a), "s"), "i"),
       Fn("crc32", ["v"], on(lambda s: zlib.crc32(s.encode("utf-8")), "s"), "i"), Fn("to_base64", ["v"], on(lambda s: base64.b64encode(s.encode("utf-8")).decode(), "s"), "b64"), Fn("from_base64", ["b64"], unb64, "s"),
       Fn("hex", ["t"], lambda s: s.encode("utf-8").hex().upper(), "hex"), Fn("unhex", ["hex"], lambda h: bytes.fromhex(h), "bytes"),
       Fn("inet4_aton", ["ip"], aton(4), "h4"), Fn("inet4_ntoa", ["h4"], ntoa(4), "ip"), Fn("inet6_aton", ["ip6"], aton(6), "h6"), Fn("inet6_ntoa", ["h6"], ntoa(6), "ip6"), Fn("is_ipv4", ["ip"], is_ip(4), "i"), Fn("is_ipv6", ["ip6"], is_ip(6), "i")]

POOL = ["", " ", "a", "b", "ab", "abc", "ABC", "  pad ", "x  ", "é", "naïve", "中文字", "😀x", "a,b,c", "a.b.c.d", ",", "..", "aaaa", "aXbXc", "%_", "it's", 'q"t', "back\\slash", "tab\there", "line\nbreak", "12", "3.5", "0", "Quadratic", "www.mysql.com", "a;b -- c", "ÀÉ", "null", "abcabc"]


def t(r):
    k = r.random()
    return r.choice(POOL) if k < 0.8 else "".join(r.choice("aAbB ,.x中é-") for _ in range(r.randint(0, 9)))


def v(r):
    k = r.random()
    return t(r) if k < 0.88 else r.choice([1, 12, 305, -7, 2.5, True, False])


def ip(r):
    k = r.random()
    return ".".join(str(r.choice([0, 1, 10, 127, 255, r.randint(0, 255)])) for _ in range(4)) if k < 0.7 else r.choice(["", "1.2", "256.1.1.1", "a.b.c.d", "1.2.3.4.5", "::1", "1.2.3"])


def ip6(r):
    return r.choice(["::1", "::", "fe80::1", "2001:db8::ff00:42:8329", "1:2:3:4:5:6:7:8", "10.0.0.1", "", ":::", "zz", "2001:db8:0:0:1::1"])


KINDS = {"dd": (["d1"], lambda r: r.choice([datetime.date(2023, 2, 28), datetime.datetime(2024, 12, 31, 23, 59, 1), datetime.time(7, 8, 9)]), None),
         "t": (["s1", "s2", "s3"], t, {"s"}), "v": (["s1", "s2", "s3", "v1", "d1"], v, {"s", "i", "b64", "hex"}), "vv": (["v1"], v, None),
         "p": (["p1", "p2"], lambda r: r.choice([0, 1, 2, 3, 4, 5, 9, -1, -2, -3, "2"]), None), "c": (["c1"], lambda r: r.choice([0, 1, 2, 3, -1, "2"]), None), "k": (["k1"], lambda r: r.choice([0, 1, 2, 3, -1, -2, 5]), None),
         "sep": (["sep"], lambda r: r.choice([",", "", "-", ", ", "é"]), None), "set": (["ss"], lambda r: r.choice(["", "a,b,c", "a", "ab,abc", "b,,a", "é,中文字", ",".join(t(r).replace(",", "") for _ in range(r.randint(1, 5)))]), None),
         "code": (["code"], lambda r: r.choice([65, 97, 48, 32, 122, 77, "77"]), None), "b64": (["b64"], lambda r: base64.b64encode(t(r).encode("utf-8")).decode(), {"b64"}),
         "hex": (["hx"], lambda r: r.choice([str.upper, str.lower])(t(r).encode("utf-8").hex()), {"hex"}),
         "ip": (["ip"], ip, {"ip"}), "h4": (["h4"], lambda r: "%08x" % r.getrandbits(32), {"h4"}), "ip6": (["ip6"], ip6, {"ip6"}), "h6": (["h6"], lambda r: ipaddress.IPv6Address(r.choice(["::1", "::", "fe80::1", "2001:db8::1"])).packed.hex(), {"h6"})}
from vlib import sqlmodel as _M


def lit(x):
    if isinstance(x, (datetime.date, datetime.time)):
        return {"datetime": "datetime('%s')", "date": "date('%s')", "time": "time('%s')"}[type(x).__name__] % text(x)


SUITE = funcs.Suite(FNS, KINDS, lit)
META["required"].update({"fn_" + f.name: 30 for f in FNS})


def make(rng, i, tier):
    return SUITE.make(rng)


def run(case, obs):
    SUITE.run(case, obs)
