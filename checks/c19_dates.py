"""C19: date and time functions against the calendar (python datetime / zoneinfo)."""
import calendar, datetime as D
from zoneinfo import ZoneInfo
from vlib import funcs, eng
from vlib.funcs import Fn, Skip, Null

META = {"id": "C19", "sizes": {"quick": 24000, "thorough": 250000},
        "rule": "random dates biased to month ends, leap days, year boundaries and midnight, as text, compact numbers, date objects and datetime objects, plus invalid text and NULL, under four configured time zones x every documented date function, INTERVAL arithmetic in every unit with literal, negative, column and computed amounts, nested calls; in the select list, WHERE, GROUP BY key, ORDER BY key, CASE/IFNULL, aggregate argument and table-less SELECT; non-trivial = value differs between rows; distinct by (SQL, values)",
        "required": {"values": 10000, "null_values": 400, "nonnull_values": 5000},
        "note": "References use python's datetime, calendar and zoneinfo; weeks are derived from the definition (start day, first week rule), not from strftime."}
ZONES = ["UTC", "Asia/Shanghai", "America/New_York", "Asia/Kolkata"]
ZONE = [None]


def dt(v):
    """any accepted representation -> date or datetime"""
    if isinstance(v, D.datetime) or isinstance(v, D.date):
        return v
    if isinstance(v, D.time):
        raise Skip()
    s = str(v)
    try:
        if len(s) == 8 and s.isdigit():
            return D.datetime.strptime(s, "%Y%m%d")
        if len(s) == 14 and s.isdigit():
            return D.datetime.strptime(s, "%Y%m%d%H%M%S")
        return D.datetime.strptime(s, "%Y-%m-%d" if len(s) == 10 else "%Y-%m-%d %H:%M:%S.%f" if "." in s else "%Y-%m-%d %H:%M:%S")
    except ValueError:
        raise Null()


def full(v):
    v = dt(v)
    return v if isinstance(v, D.datetime) else D.datetime(v.year, v.month, v.day)


def day(v):
    v = dt(v)
    return v.date() if isinstance(v, D.datetime) else v


def tod(v):
    if isinstance(v, D.time):
        return v
    v = dt(v)
    return v.time() if isinstance(v, D.datetime) else D.time()


def months(v, n):
    y, m = divmod(v.year * 12 + v.month - 1 + n, 12)
    if not 1 <= y <= 9999:
        raise Null()
    return v.replace(year=y, month=m + 1, day=min(v.day, calendar.monthrange(y, m + 1)[1]))


DELTA = {"WEEK": D.timedelta(days=7), "DAY": D.timedelta(days=1), "HOUR": D.timedelta(hours=1), "MINUTE": D.timedelta(minutes=1), "SECOND": D.timedelta(seconds=1), "MICROSECOND": D.timedelta(microseconds=1)}


def shift(v, unit, n):
    v, n = dt(v), int(n)
    if unit in ("YEAR", "QUARTER", "MONTH"):
        return months(v, n * {"YEAR": 12, "QUARTER": 3, "MONTH": 1}[unit])
    if unit not in ("DAY", "WEEK"):
        v = full(v)
    try:
        return v + DELTA[unit] * n
    except OverflowError:
        raise Null()


def week_start(d, monday):
    return d - D.timedelta(days=d.weekday() if monday else (d.weekday() + 1) % 7)


def first_week(y, monday, four):
    if four:
        return week_start(D.date(y, 1, 4), monday)
    s = week_start(D.date(y, 1, 7), monday)          # the first Sunday/Monday of the year
    return s


def week(v, mode):
    d, mode = day(v), int(mode)
    monday, four = mode in (1, 3, 5, 7), mode in (1, 3, 4, 6)
    y = d.year
    if mode in (2, 3, 6, 7):
        y = max(c for c in (y - 1, y, y + 1) if first_week(c, monday, four) <= d)
    return y, (week_start(d, monday) - first_week(y, monday, four)).days // 7 + 1


def yearweek(v, mode):
    y, w = week(v, {0: 2, 1: 3, 4: 6, 5: 7}.get(int(mode), int(mode)))
    return y * 100 + w


def mode0(f):
    return lambda v, m: None if v is None else f(v, m or 0)          # a NULL mode is the default mode


def tsdiff(unit, a, b):
    a, b = full(a), full(b)
    if unit in DELTA:
        n = abs(b - a) // DELTA[unit]
        return n if b >= a else -n
    lo, hi = min(a, b), max(a, b)
    n = 0
    n = (hi.year - lo.year) * 12 + hi.month - lo.month
    if (hi.day, hi.time()) < (lo.day, lo.time()):
        n -= 1
    n //= {"YEAR": 12, "QUARTER": 3, "MONTH": 1}[unit]
    return n if b >= a else -n


def unix(v):
    v = full(v)
    t = v.replace(tzinfo=ZoneInfo(ZONE[0])).timestamp()
    if t < 0 and v.microsecond:
        raise Skip
    return int(t // 1)


def from_unix(n):
    return D.datetime.fromtimestamp(int(n), ZoneInfo(ZONE[0])).replace(tzinfo=None)


def secs(v):
    t = D.time.fromisoformat(v) if isinstance(v, str) and "-" not in v else tod(v)
    return t.hour * 3600 + t.minute * 60 + t.second


def sec_to_time(n):
    n = int(n)
    a = abs(n)
    return "%s%02d:%02d:%02d" % ("-" if n < 0 else "", a // 3600, a // 60 % 60, a % 60)


def addtime(sign):
    def ref(v, t):
        v = full(v)
        days, _, t = t.rpartition(" ")
        if t.count(":") == 1:                # D h:m, or m:s without days
            t = t + ":0" if days else "0:" + t
        h, m, s = t.split(":")
        s, _, f = s.partition(".")
        d = D.timedelta(days=int(days or 0), hours=int(h), minutes=int(m), seconds=int(s), microseconds=int((f or "0").ljust(6, "0")))
        return v + d * sign
    return ref


def interval_text(r):
    f = r.choice(["%02d:%02d:%02d", "%d:%02d:%02d", "1 %02d:%02d:%02d", "3 %02d:%02d:%02d", "2 %02d:%02d", "0 %d:%d", "12 %02d:%02d:%02d", "%02d:%02d", "%d:%02d"])
    return f % tuple([r.choice([0, 1, 10, 23]), r.choice([0, 1, 30, 59]), r.choice([0, 1, 59])][:f.count("%")]) + (r.choice([".5", ".25", ".000001"]) if f.count("%") == 3 and r.random() < 0.2 else "")


NAMES = "Monday Tuesday Wednesday Thursday Friday Saturday Sunday".split()
MONTHS = "January February March April May June July August September October November December".split()


def fmt(v, f):
    out, i = "", 0
    v = full(v)
    while i < len(f):
        if f[i] != "%":
            out, i = out + f[i], i + 1
            continue
        c = f[i + 1]
        out += {"Y": "%04d" % v.year, "m": "%02d" % v.month, "d": "%02d" % v.day, "H": "%02d" % v.hour, "M": "%02d" % v.minute, "S": "%02d" % v.second, "j": "%03d" % v.timetuple().tm_yday,
                "y": "%02d" % (v.year % 100), "b": MONTHS[v.month - 1][:3], "B": MONTHS[v.month - 1], "a": NAMES[v.weekday()][:3], "A": NAMES[v.weekday()], "p": "AM" if v.hour < 12 else "PM", "I": "%02d" % ((v.hour - 1) % 12 + 1), "f": "%06d" % v.microsecond, "%": "%",
                "v": "%02d" % v.isocalendar()[1], "w": str((v.weekday() + 1) % 7)}[c]
        i += 2
    return out


def whole(f):
    return lambda v: f(dt(v))


def to_time(v):
    return tod(v)


FNS = [Fn("date", ["D"], day, "date"), Fn("datetime", ["D"], full, "datetime"), Fn("time", ["D"], to_time, "time"),
       Fn("year", ["D"], whole(lambda v: v.year), "i"), Fn("month", ["D"], whole(lambda v: v.month), "i"), Fn("dayofmonth", ["D"], whole(lambda v: v.day), "i"),
       Fn("dayofyear", ["D"], lambda v: (day(v) - D.date(day(v).year, 1, 1)).days + 1, "i"), Fn("weekday", ["D"], lambda v: day(v).weekday(), "i"), Fn("dayofweek", ["D"], lambda v: (day(v).weekday() + 1) % 7 + 1, "i"),
       Fn("dayname", ["D"], lambda v: NAMES[day(v).weekday()], "s"), Fn("monthname", ["D"], lambda v: MONTHS[day(v).month - 1], "s"),
       Fn("week", ["D"], lambda v: week(v, 0)[1], "i"), Fn("weekm", ["D", "mode"], mode0(lambda v, m: week(v, m)[1]), "i", nullable=True, sql=lambda a, b: "week(%s, %s)" % (a, b), w=2),
       Fn("yearweek", ["D"], lambda v: yearweek(v, 0), "i"), Fn("yearweekm", ["D", "mode"], mode0(yearweek), "i", nullable=True, sql=lambda a, b: "yearweek(%s, %s)" % (a, b), w=2),
       Fn("unix_timestamp", ["D"], unix, "ts"), Fn("from_unixtime", ["ts"], from_unix, "datetime"),
       Fn("time_to_sec", ["T"], secs, "sec"), Fn("sec_to_time", ["sec"], sec_to_time, "tstr"),
       Fn("datediff", ["D", "D"], lambda a, b: (day(a) - day(b)).days, "i", w=2),
       Fn("adddate", ["D", "n"], lambda v, n: shift(v, "DAY", n), "datetime"), Fn("subdate", ["D", "n"], lambda v, n: shift(v, "DAY", -n), "datetime"),
       Fn("date_add", ["D", "n"], lambda v, n: shift(v, "DAY", n), "datetime"), Fn("date_sub", ["D", "n"], lambda v, n: shift(v, "DAY", -n), "datetime"),
       Fn("dateadd", ["D", "n"], lambda v, n: shift(v, "DAY", n), "datetime"), Fn("datesub", ["D", "n"], lambda v, n: shift(v, "DAY", -n), "datetime"),
       Fn("addtime", ["D", "iv"], addtime(1), "datetime"), Fn("subtime", ["D", "iv"], addtime(-1), "datetime"),
       Fn("adddate_iv", ["D", "iv"], addtime(1), "datetime", sql=lambda a, b: "adddate(%s, %s)" % (a, b)), Fn("subdate_iv", ["D", "iv"], addtime(-1), "datetime", sql=lambda a, b: "subdate(%s, %s)" % (a, b)),
       Fn("date_add_iv", ["D", "iv"], addtime(1), "datetime", sql=lambda a, b: "date_add(%s, %s)" % (a, b)), Fn("date_sub_iv", ["D", "iv"], addtime(-1), "datetime", sql=lambda a, b: "date_sub(%s, %s)" % (a, b)),
       Fn("date_format", ["D", "fmt"], fmt, "s", w=2), Fn("time_format", ["TT", "tfmt"], lambda v, f: fmt(D.datetime.combine(D.date(2000, 1, 1), D.time.fromisoformat(v) if isinstance(v, str) else tod(v)), f), "s")]
for U in ["YEAR", "QUARTER", "MONTH", "WEEK", "DAY", "HOUR", "MINUTE", "SECOND", "MICROSECOND"]:
    FNS += [Fn("add_" + U, ["D", "n"], lambda v, n, U=U: shift(v, U, n), "datetime", sql=lambda a, b, U=U: "date_add(%s, INTERVAL %s %s)" % (a, b, U), w=2 if U in ("YEAR", "MONTH", "QUARTER") else 1),
            Fn("sub_" + U, ["D", "n"], lambda v, n, U=U: shift(v, U, -n), "datetime", sql=lambda a, b, U=U: "date_sub(%s, INTERVAL %s %s)" % (a, b, U)),
            Fn("plus_" + U, ["D", "n"], lambda v, n, U=U: shift(v, U, n), "datetime", sql=lambda a, b, U=U: "(%s + INTERVAL %s %s)" % (a, b, U)),
            Fn("minus_" + U, ["D", "n"], lambda v, n, U=U: shift(v, U, -n), "datetime", sql=lambda a, b, U=U: "(%s - INTERVAL %s %s)" % (a, b, U)),
            Fn("diff_" + U, ["D", "D"], lambda a, b, U=U: tsdiff(U, a, b), "i", sql=lambda a, b, U=U: "timestampdiff('%s', %s, %s)" % (U, a, b))]


def gd(r):
    y = r.choice([2023, 2024, 2000, 1999, 2020, 2021, 2016, 1970, 1985, 2038, 2100, 1900])
    k = r.random()
    if k < 0.3:
        m = r.randint(1, 12)
        return D.date(y, m, calendar.monthrange(y, m)[1] - r.choice([0, 0, 1]))
    if k < 0.5:
        return D.date(y, *r.choice([(1, 1), (12, 31), (1, 2), (12, 30), (1, 4), (12, 28), (1, 7), (12, 29), (1, 3)]))
    if k < 0.6:
        return D.date(y, 2, 29) if calendar.isleap(y) else D.date(y, 3, 1)
    return D.date(y, r.randint(1, 12), r.randint(1, 28))


def gt(r):
    return r.choice([D.time(0, 0, 0), D.time(23, 59, 59), D.time(12, 0, 0), D.time(r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))])


def gdt(r):
    return D.datetime.combine(gd(r), gt(r))


def gtext(r):
    k = r.random()
    return gdt(r).strftime("%Y-%m-%d %H:%M:%S") if k < 0.55 else gd(r).isoformat() if k < 0.88 else gd(r).strftime("%Y%m%d") if k < 0.92 else r.choice(["2023-02-30", "2023-13-01", "nonsense", "2023-00-10", "2021-02-29"])


def lit(x):
    if isinstance(x, (D.datetime, D.date, D.time)):
        return {"datetime": "datetime('%s')", "date": "date('%s')", "time": "time('2023-01-01 %s')"}[type(x).__name__] % (x.strftime("%Y-%m-%d %H:%M:%S") if isinstance(x, D.datetime) else x.isoformat())


KINDS = {"dd": (["dd"], gd, None), "dv": (["dv"], gdt, None), "dn": (["dn"], lambda r: int(gd(r).strftime("%Y%m%d")), None),
         "D": (["ds", "ds2", "dd", "dv", "dn"], lambda r: r.choice([gtext, gtext, gtext, gd, gdt])(r), {"date", "datetime"}),
         "mode": (["mode"], lambda r: r.randint(0, 7), None), "n": (["n1", "n2"], lambda r: r.choice([0, 1, 2, 3, 11, 12, 13, 24, 30, 31, 45, 100, 366, -1, -2, -12, -13, -31, -90]), None),
         "ts": (["ts"], lambda r: r.choice([0, 86399, 951782400, 1583020799, 1683367872, 1709164800, 2147483647, r.randint(0, 2 * 10 ** 9)]), {"ts"}),
         "sec": (["sec"], lambda r: r.choice([0, 1, 59, 60, 3599, 3600, 86399, 86400, 90061, 360000, -1, -3700]), {"sec"}),
         "tv": (["tv"], gt, None), "T": (["ts1", "tv", "dv"], lambda r: r.choice([lambda: gt(r).isoformat(), lambda: gt(r)])(), None), "TT": (["ts1", "tv", "dv"], lambda r: gt(r).isoformat(), None),
         "iv": (["iv"], interval_text, None),
         "fmt": ([], lambda r: r.choice(["%Y-%m-%d", "%Y-%m-%d %H:%M:%S", "%d/%m/%y", "%B %d, %Y", "%A %j", "%I:%M %p", "%a %b", "%H%%", "%Y week %v", "%Y/%m/%d %H-%M-%S.%f", "%w", "day %d"]), None),
         "tfmt": ([], lambda r: r.choice(["%H:%M:%S", "%H:%M", "%I:%M %p", "%S", "%H h"]), None)}
SUITE = funcs.Suite(FNS, KINDS, lit)
META["required"].update({"fn_" + f.name: 20 for f in FNS})


def make(rng, i, tier):
    c = SUITE.make(rng)
    c["config"] = {"timezone": rng.choice(ZONES)}
    return c


def run(case, obs):
    ZONE[0] = case["config"]["timezone"]
    obs.hit("zone_" + ZONE[0])
    SUITE.run(case, obs)
