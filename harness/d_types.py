"""Driver for the cell types (C18) and classified texts."""
import itertools
import unicodedata

from clevercsv.detect_type import TypeDetector

from drv import T

WS = set(map(chr, list(range(9, 14)) + [0x20, 0x85, 0xA0, 0x1680] + list(range(0x2000, 0x200B)) +
             [0x2028, 0x2029, 0x202F, 0x205F, 0x3000]))
SPECIALS = set(map(chr, [45, 95, 46, 1748, 12290, 65106, 65294, 65377, 40, 41, 10222, 10223, 65288, 65289, 63, 191, 894,
                         1374, 1567, 4967, 6469, 8263, 8264, 8265, 11514, 11515, 11822, 42511, 42743, 65046, 65110,
                         65311, 69955, 125279, 33, 161, 451, 1372, 2041, 4255, 6468, 8252, 43639, 65045, 65111, 65281,
                         125278]))
QSPECIALS = set(map(chr, [44, 1548, 4963, 6146, 6152, 65292, 65104]))
_k = {}


def klass(c):
    k = _k.get(c)
    if k is None:
        g = unicodedata.category(c)
        k = (5 if c in WS else 6 if "\x1c" <= c <= "\x1f" else 1 if g[0] == "L" else 2 if g == "Nd" else
             3 if g[0] == "N" else 4 if g == "Sc" else 7)
        _k[c] = k
    return k


def X(s):
    return dict(c=T(s), k=[klass(c) for c in s])


def stable(c):
    """The category of the character is the same in every version of Unicode that may be in use."""
    return unicodedata.category(c) == unicodedata.ucd_3_2_0.category(c) != "Cn" or c in SPECIALS or c in QSPECIALS


ODD = [c for c in "éßΩжאَ٣３²½Ⅷ中年月日년월일€$£¥¢฿₤￥…—“”„«»。，、？！；：（）·\u00a0\u2003\u3000\u2028\x1c\x1f\x0b\x0c\x85"
       "\u200b\u00ad\ue000\U0001d7d9\U00010400\U0001d11e\t\n\r " if stable(c)] + sorted(SPECIALS | QSPECIALS)


def pick(rng, *xs):
    return rng.choice(xs)


def digits(rng, a, b):
    return "".join(rng.choice("0123456789") for _ in range(rng.randint(a, b)))


def number(rng):
    s = pick(rng, "", "", "-", "+")
    k = rng.randrange(5)
    i = pick(rng, "0", "", digits(rng, 1, 4), "1" + digits(rng, 0, 3), "007")
    e = pick(rng, "", "", "e" + digits(rng, 1, 2), "E-" + digits(rng, 1, 2), "e+3", "e", "E-")
    if k == 0:
        return s + i + e
    if k == 1:
        return s + i + "." + digits(rng, 0, 3) + e
    if k == 2:
        return s + i + "," + digits(rng, 0, 3) + e
    a, b = pick(rng, ",.", ".,")
    return s + digits(rng, 1, 3) + "".join(a + digits(rng, 3, 3) for _ in range(rng.randint(0, 3))) + \
        pick(rng, b + digits(rng, 0, 2), "")


def word(rng, n=6):
    return "".join(rng.choice("abcdeTZnN0123456789-_.é中٣") for _ in range(rng.randint(1, n)))


def lower(rng, a, b):
    return "".join(rng.choice("abcmnorgz") for _ in range(rng.randint(a, b)))


def url(rng):
    host = pick(rng, ".".join(word(rng, 4) for _ in range(rng.randint(1, 3))) + "." +
                pick(rng, lower(rng, 1, 4), "local", "com", "co.uk", "c", "Com"),
                "localhost", "localhost:" + digits(rng, 1, 6), ip(rng), ip(rng) + ":" + digits(rng, 0, 6))
    return pick(rng, "http://", "https://", "ftp://", "", "", "ftps://", "http:/", "http://-", "HTTP://", "//") + host + \
        pick(rng, "", "", "/", "/" + "".join(rng.choice("ab09_/()~?=&%-#.:é中!@,") for _ in range(rng.randint(0, 8)))) + \
        pick(rng, "", "", ".html", ".", ".H")


def ip(rng):
    return ".".join(digits(rng, 1, 3) for _ in range(rng.choice([4, 4, 4, 4, 3, 5])))


def email(rng):
    return pick(rng, word(rng), "a.b+c", "a") + "@" + pick(rng, word(rng), "x-y") + \
        pick(rng, ".com", ".co.uk", "", ".", ".é", "@b.c")


HRS = ["0", "1", "9", "00", "01", "09", "10", "19", "20", "23", "24", "29", "30", "3", "٣"]
MINS = ["0", "5", "00", "09", "10", "59", "60", "61", "99", "000", "٣٣"]


def time(rng):
    t = pick(rng, *HRS) + ":" + pick(rng, *MINS)
    k = rng.random()
    if k < .6:
        t += ":" + pick(rng, *MINS)
        if k < .4:
            t += pick(rng, "+", "-", "Z", " ") + pick(rng, *HRS) + ":" + pick(rng, *MINS)
    return t


MD = ["0", "00", "1", "01", "9", "09", "10", "12", "13", "19", "20", "29", "30", "31", "32", "39", "2", "٣", "3"]
YR = ["1999", "2020", "0999", "3000", "99", "00", "9", "999", "20201", "1٣٣٣", "٣٣"]
SEP = ["-", "/", ".", " ", "", "", ":", "_"]


def date(rng):
    s = pick(rng, *SEP)
    s2 = s if rng.random() < .9 else pick(rng, *SEP)
    a, b, c = pick(rng, *MD), pick(rng, *MD), pick(rng, *YR)
    k = rng.randrange(8)
    if k == 0:
        return c + "年" + a + "月" + b + pick(rng, "日", "日", "月", "")
    if k == 1:
        return c + "년" + a + "월" + b + pick(rng, "일", "일", "日", "")
    if k < 5:
        return c + s + a + s2 + b
    return a + s + b + s2 + c


GOODDATE = ["2020-01-31", "1999.12.1", "31/12/99", "12-31-2020", "2020年1月2日", "20200131", "990131", "1 2 2020"]
GOODTIME = ["10:00", "9:59", "23:59:59", "00:00:00", "10:00:00+01:00", "20:00:01-19:59"]


def datetime(rng):
    d = pick(rng, *GOODDATE) if rng.random() < .8 else date(rng)
    t = pick(rng, *GOODTIME) if rng.random() < .8 else time(rng)
    if rng.random() < .4:
        return d + pick(rng, " ", " ", "  ", "\t", " \u00a0", "t", "_") + t
    off = pick(rng, "", "", "Z", "Z", "z", "ZZ", "+0100", "-0100", "+01", "-2359", "+01:00", "-2:30", "+2400", "+",
               "-", "+01:00+02:00", "-0100-", "+01:00-02:00", "-01:00+02:00", " Z", "+ 0100", "Z+01:00", "T10:00", "+1:00")
    return d + pick(rng, "T", "T", "T", "T ", "T\t", " T") + t + off


def path(rng):
    return pick(rng, "", "~", ".", "..", "~.") + "".join("/" + pick(rng, word(rng), "a.b_c-d", "X", "")
                                                         for _ in range(rng.randint(1, 4))) + pick(rng, "", "/", "//")


def jsonval(rng, depth):
    k = rng.randrange(9 if depth else 6)
    ws = pick(rng, "", "", " ", "\n", "\t\r")
    if k == 0:
        v = pick(rng, "null", "true", "false", "NaN", "Infinity", "-Infinity", "nul", "True", "nan")
    elif k in (1, 2):
        v = pick(rng, "0", "-0", "1", "-12", "1.5", "01", "1.", ".5", "1e5", "1E+5", "1e-07", "1e", "-", "+1", "--1", "1.5e3",
                 "0x1", "1_0", "٣", "9" * 30, "1e999")
    elif k in (3, 4, 5):
        v = jsonstr(rng)
    elif k < 8:
        v = "{" + ws + ",".join(ws + jsonstr(rng) + ws + ":" + jsonval(rng, depth - 1) for _ in range(rng.randint(0, 3))) + "}"
    else:
        v = "[" + ws + ",".join(jsonval(rng, depth - 1) for _ in range(rng.randint(0, 3))) + "]"
    return ws + v + pick(rng, "", "", " ", "\n")


def jsonstr(rng):
    return '"' + "".join(pick(rng, "a", "é", "中", " ", "'", "/", "\\n", "\\\\", '\\"', "\\u00e9", "\\/", "\\ud800", "\U0001d11e",
                              pick(rng, "\\x", "\n", "\\u12", "\\u12G4", "\t", "\x7f", "\\u 123", "\\'"))
                         if rng.random() < .3 else rng.choice("abc,:{}[]")
                         for _ in range(rng.randint(0, 5))) + '"'


def jsonobj(rng):
    return "{" + ",".join(jsonstr(rng) + ":" + jsonval(rng, 2) for _ in range(rng.randint(0, 3))) + \
        pick(rng, "}", "}", "}", ",}", "}}", "} ", "]", "")


def currency(rng):
    return pick(rng, "$", "€", "£", "¥", "฿", "USD", "$$", "-$") + pick(rng, "", "", " ", "  ", "\u00a0", "\t", "\n", " \n", "\n\n",
                                                                      "\x1c", "\u2028") + number(rng)


def percentage(rng):
    return number(rng) + pick(rng, "%", " %", "%%", "% ", "% %", "‰", "%\u00a0%", "\n%", "")


def text(rng):
    return "".join(pick(rng, "a", "b", "Z", "1", " ", *ODD) if rng.random() < .5 else rng.choice("abcXYZ 01-_.()?!,;:'")
                   for _ in range(rng.randint(1, 10)))


def nan(rng):
    return pick(rng, "n/a", "N/A", "na", "NA", "nan", "NaN", "NAN", "n\\a", "n.a", "nann", "nA", "ɴa", "Na", "n/an", "ｎａ", "/a")


def barr(rng):
    return pick(rng, "bytearray(b", "bytearray(b", "bytearray(", "Bytearray(b", "bytearray (b") + \
        pick(rng, "'\\x00'", '"a"', "", ",;", "'a')", "\n#\n") + pick(rng, ")", ")", "", ") ", "]")


GENS = [number, number, url, url, email, ip, time, date, date, datetime, datetime, path, jsonobj, jsonobj, currency, percentage,
        text, text, nan, barr]
POOL = list("0123456789+-.,eE:/ TZ%$@\"'{}[]()abz_~\\?=&#!;*<>|^`\n\t") + ODD


def mutate(rng, t):
    i = rng.randint(0, len(t))
    k = rng.randrange(4)
    if k == 0:
        return t[:i] + rng.choice(POOL) + t[i:]
    if k == 1:
        return t[:i] + t[i + 1:]
    if k == 2:
        return t[:i] + rng.choice(POOL) + t[i + 1:]
    return t[:i] + t[i:i + 1] * 2 + t[i + 1:]


EXEMPLARS = ["12", "-1,234.5", "3e-4", "http://a.bc/d?e", "www.ab.cd", "a.b@cd.ef", "1.2.3.4", "12:34", "23:59:59+01:00", "2020-01-31",
             "31/12/99", "2020-01-31 12:34", "2020-01-31T12:34:56Z", "/a/b.c", "C:\\a\\b", '{"a":[1]}', "$1,234.50", "5 \u20ac", "12.5%", "N/A", "nan",
             "abc", "a b c", "bytearray(b'x!')"]
ALPHABETS = [("0" "1" "-" "." "," "e", 5, 6), ("12.,+", 5, 6), ("a.:/-1", 4, 5), ("0123:", 5, 6), ("n/a~.N", 4, 5),
             ('{}":,1', 5, 6), ("a@.-", 5, 6), ("$ 1%,.", 4, 5)]


def cells(D):
    """Cell texts of every kind, this shard's part."""
    rng = D.rng
    for alpha, q, th in ALPHABETS:
        for n in range((q if D.quick else th) + 1):
            yield from D.mine("".join(t) for t in itertools.product(alpha, repeat=n))
    # every pair of characters that occurs in some definition, alone and between letters
    for a in D.mine(sorted(set(POOL) | SPECIALS | QSPECIALS)):
        yield a
        yield "a" + a
        yield a + "b"
        yield "1" + a
        yield "1" + a + "5"
        yield "x" + a + "y " + a
    # all times and dates built from the boundary values
    for x in D.mine(itertools.product(HRS, MINS, [""] + MINS[2:6])):
        yield x[0] + ":" + x[1] + (":" + x[2] if x[2] else "")
    combos = [(a, s, b, c) for a in MD for s in "-/. _" for b in MD for c in YR]
    if D.quick:
        combos = combos[D.seed % 3::3]
    for a, s, b, c in D.mine(combos):
        k = rng.randrange(3)
        yield (a + s + b + s + c, c + s + a + s + b, a + b + c)[k]
    # dates without separators are numbers, unless a time follows
    for a, b, c in D.mine([(a, b, c) for a in MD for b in MD for c in ("2020", "99", "1999", "3000", "0999", "20")]):
        yield rng.choice([a + b + c, a + b + c, c + a + b]) + rng.choice([" ", "T"]) + rng.choice(["12:30", "9:59"])
    # a cell of every kind, with every character around, in front of and behind it
    for x in EXEMPLARS:
        for a in D.mine([chr(i) for i in range(32, 127)] + ["\n", "\t", "\u00a0", "\u00e9", "\u20ac"]):
            yield a + x
            yield x + a
            yield a + x + {"(": ")", "[": "]", "{": "}", "<": ">"}.get(a, a)
            i = rng.randint(1, len(x) - 1)
            yield x[:i] + a + x[i:]
            yield x[:i] + a + x[i + 1:]
    for i in range(D.n_cases(30000, 500000)):
        t = rng.choice(GENS)(rng)
        if i % 50 == 0:
            t = t * rng.randint(2, 12) if i % 100 else "".join(rng.choice(GENS)(rng) for _ in range(8))
        k = rng.random()
        while k < .5:
            t = mutate(rng, t)
            k = k * 2 + .1
        if rng.random() < .15:
            t = rng.choice([" ", "\t", "\n", "\u00a0", "\u3000", "\x1c", "\x85", "\u200b"]) + t
        if rng.random() < .15:
            t += rng.choice([" ", "\t", "\n", "\r\n", "\u2003", "\x1f", "  "])
        yield t


def c18(D):
    def pumped(i):
        """A part of the cell occurs hundreds of times (CellPumpMC)."""
        t = rng.choice(EXEMPLARS) if i % 2 else rng.choice(GENS)(rng)
        t = t[:24]
        if not t or not all(map(stable, t)):
            return
        a = rng.randrange(len(t))
        b = min(len(t), a + rng.choice([1, 1, 2, 3, 4, 6]))
        m = rng.choice([5, 20, 50, 170] + ([] if D.quick else [700]))
        if rng.random() < .2:
            t = rng.choice(EXEMPLARS)[:2] + t
        small, big = (t[:a] + t[a:b] * k + t[b:] for k in (8, 8 + 6 * m))
        D.begin(dict(cell=t, part=[a, b], copies=8 + 6 * m))
        try:
            u, q, ku, kq, exc = td.detect_type(big), td.detect_type(big, is_quoted=True), td.is_known_type(big), td.is_known_type(big, is_quoted=True), False
        except Exception as e:
            u = q = repr(e)
            ku, kq, exc = False, False, True
        D.emit(dict(x=X(small), u=u or "unknown", q=q or "unknown", ku=bool(ku), kq=bool(kq), exc=exc), (t, a, b, m) if u else None)

    rng = D.rng
    D.rule = ("cells: exhaustive over small alphabets for numbers, urls, times, not-a-number, JSON, e-mail and currency; "
              "every definition's punctuation in fixed contexts; all boundary values of times and dates; cells "
              "generated from every definition, then mutated, or with a part repeated up to a thousand times; each unquoted and quoted; non-trivial: a known type")
    td = TypeDetector()
    seen = set()
    prev = None
    with D.guard(600):
        for t in cells(D):
            if t in seen or not all(map(stable, t)) or len(t) > 300:
                continue
            seen.add(t)
            D.begin(dict(cell=t))
            try:
                if len(seen) % 5000 == 0:
                    td = TypeDetector()
                u, q = td.detect_type(t), td.detect_type(t, is_quoted=True)
                ku, kq = td.is_known_type(t), td.is_known_type(t, is_quoted=True)
                exc = False
                if prev is not None and len(seen) % 7 == 0 and td.detect_type(prev[0]) != prev[1]:
                    D.violation("the type of a cell depends on the cells before it", dict(cell=prev[0], after=t))
                prev = (t, u)
            except Exception as e:
                u = q = repr(e)
                ku = kq = False
                exc = True
            D.emit(dict(x=X(t), u=u or "unknown", q=q or "unknown", ku=bool(ku), kq=bool(kq), exc=exc), t if u else None)
        for i in range(D.n_cases(2400, 24000)):
            pumped(i)
