"""Drivers for the reading properties (C01, C02, C03)."""
import io
import itertools
import os

import clevercsv
from clevercsv.cparser_util import parse_data, parse_string
from clevercsv.dialect import SimpleDialect

from drv import T, C, S, ch, outcome, rows_of, stretch, unrepeat, unstretch

LIM = 131072


def conf(d, q, e, strict=False, limit=LIM):
    return dict(d=C(d), q=C(q), e=C(e), strict=strict, limit=limit)


def case(p, lines, rows, end, quoted=None, op="parse"):
    c = dict(op=op, p=p, l=[T(x) if isinstance(x, str) else [1114112] for x in lines],
             r=[[T(x) for x in r] for r in rows], e="err" if end == "err" else "stop" if end == "stop" else "exc",
             hasq=quoted is not None, q=quoted if quoted is not None else [])
    return c


def split(t):
    return list(io.StringIO(t, newline=""))


def well_typed(rows):
    return all(type(r) is list and all(type(x) is str for x in r) for r in rows)


def run_reader(src, d, q, e, strict=False):
    rows, k, v = rows_of(clevercsv.reader(src, SimpleDialect(d, q, e, strict=strict)), clevercsv.Error)
    if not well_typed(rows):
        return [], "exc", "rows are not lists of texts"
    return rows, k, v


ALPHA = ["a", "D", "Q", "E", "\n", "\r", " "]
WIDE = ["a", "b", "1", " ", ",", ";", '"', "'", "\\", "\n", "\r", "\r\n", "\t", "|", "é", "→", "\U0001d11e", "~",
        "\x0b", "\x0c", "\x1c", "\x1e", "\x85", "\u2028", "\u2029", "\ufeff", "\x1a", "\xa0"]
DELS = [",", ";", "\t", "|", " ", "→", "\U0001d11e", "a", ""]
QUOS = ['"', "'", "~", "`", "„", "\U0001d11f", "", ""]
ESCS = ["\\", "/", "^", "§", "\U0001d120", "", ""]


def rand_dialect(rng):
    while True:
        d, q, e = rng.choice(DELS), rng.choice(QUOS), rng.choice(ESCS)
        if len({x for x in (d, q, e) if x}) == sum(1 for x in (d, q, e) if x):
            return d, q, e


def rand_text(rng, d, q, e, maxlen):
    hot = [x for x in (d, q, e, q, d) if x] + ["\n", "\r\n", "\r"]
    n = rng.randint(0, maxlen)
    w = rng.random()
    return "".join(rng.choice(hot) if rng.random() < w else rng.choice(WIDE) for _ in range(n))


def structured_text(rng, d, q, e, nrows=4, ncols=4, cell=6):
    """CSV-like text, mostly well formed, with occasional damage."""
    out = []
    nl = rng.choice(["\n", "\r\n", "\r", "\n\n"])
    for _ in range(rng.randint(0, nrows)):
        row = []
        for _ in range(rng.randint(1, ncols)):
            c = rand_text(rng, d, q, e, cell)
            k = rng.random()
            if q and k < .45:
                c = q + c.replace(q, q + q) + q
            elif e and k < .7:
                c = "".join(e + x if x in (d, q, e) else x for x in c)
            elif k < .9:
                c = "".join(x for x in c if x not in (d, q, e, "\n", "\r"))
            row.append(c)
        out.append((d or " ").join(row))
    t = nl.join(out) + (nl if rng.random() < .7 else "")
    if rng.random() < .3 and t:
        i = rng.randrange(len(t))
        t = t[:i] + rng.choice([q or "x", d or "x", e or "x", "\r", "\n", ""]) + t[i + rng.randint(0, 1):]
    return t


def exhaustive(maxlen):
    """All texts over the alphabet, for every presence pattern."""
    for mask in range(8):
        d, q, e = (m if mask >> i & 1 else "" for i, m in enumerate(",'\\"))
        tr = {"D": ",", "Q": "'", "E": "\\"}
        for n in range(maxlen + 1):
            for t in itertools.product(ALPHA, repeat=n):
                yield d, q, e, "".join(tr.get(x, x) for x in t)


def c01(D):
    D.rule = ("texts: exhaustive over {a, delimiter, quote, escape, LF, CR, space} up to a length, for each "
              "presence pattern of the dialect; random texts up to 60 characters and CSV-like tables over ASCII, "
              "Latin, BMP and astral characters; cells around the buffer sizes 4096*2^k; "
              "texts in which a character or whole records are repeated up to millions of times; non-trivial: parses to "
              "more than one cell or to a cell different from the text")

    def one(d, q, e, t, entry):
        lines = split(t)
        D.begin(dict(d=d, q=q, e=e, text=t[:2000]))
        p = conf(d, q, e)
        if entry == 0:
            rows, k, v = run_reader(io.StringIO(t, newline=""), d, q, e)
        else:
            kw = dict(delimiter=d, quotechar=q, escapechar=e, strict=False)
            for x in [x for x in kw if not kw[x]]:      # leaving it out means the same
                if D.rng.random() < .5:
                    del kw[x]
            rows, k, v = rows_of(parse_data(iter(lines), **kw), clevercsv.Error)
            if not well_typed(rows):
                rows, k = [], "exc"
        D.emit(case(p, lines, rows, k), (d, q, e, t) if rows != [[t]] and rows else None)

    with D.guard(600):
        for i, (d, q, e, t) in enumerate(D.mine(exhaustive(5 if D.quick else 6))):
            one(d, q, e, t, i % 2)
        for i in range(D.n_cases(24000, 300000)):
            d, q, e = rand_dialect(D.rng)
            t = rand_text(D.rng, d, q, e, 60) if i % 3 else structured_text(D.rng, d, q, e)
            if i % 31 == 0:                           # one character in two roles
                x = [d, q, e]
                x[D.rng.randrange(3)] = x[D.rng.randrange(3)]
                d, q, e = x
            if i % 17 == 0 and t:
                t = t.replace(D.rng.choice(t), "\ud800")          # a text that no encoding can write
            one(d, q, e, t, i % 2)
        sizes = [4094, 4095, 4096, 4097, 8191, 8192, 8193] + ([] if D.quick else [16383, 16384, 16385, 40000])
        k = 0
        for n in sizes:
            for pad in ("x", "é", "→", "\U0001d11e"):
                for shape in range(4):
                    k += 1
                    if k % D.nshards != D.shard:
                        continue
                    cell = pad * n
                    if shape == 0:
                        t = "a," + cell + ",b\nc,d\n"
                    elif shape == 1:
                        t = "'" + cell[:-2] + "\n''," + "',b\nc\n"
                    elif shape == 2:
                        t = cell + "\\,\\z" + ",'" + cell
                    else:
                        t = "".join(D.rng.choice(["a", ",", "'", pad, "\n", "\\"]) for _ in range(n // 4))
                    one(",", "'", "\\", t, k % 2)
        for i in range(D.n_cases(160, 1200)):
            scaled(D, i)


def scaled(D, i):
    """A text too long to be spelled out: copies of a character or of whole records (Scale.tla)."""
    d, q, e = rand_dialect(D.rng)
    x = D.rng.choice([c for c in "xé→\U0001d11e" if c not in (d, q, e)])
    t = structured_text(D.rng, d, q, e, 3, 3)
    t = "".join(x if c not in (d, q, e, "\n", "\r") and D.rng.random() < .4 else c for c in t) + D.rng.choice(["", x])
    k = 1 if i % 3 == 0 else D.rng.choice([2, 255, 4095, 4096, 4097, 65535, 65536, 65537, 70000, 131072] + ([] if D.quick else [1 << 20, (1 << 22) + 1]))
    n = 1 if i % 3 else D.rng.choice([3, 1000, 4096, 20000] + ([] if D.quick else [70000, 200000]))
    if n > 1:
        t = t.rstrip("\r\n") + "\n"
        rows, end, _ = rows_of(parse_data(split(t), SimpleDialect(d, q, e, strict=True)), clevercsv.Error)
        if end != "stop":         # no whole records
            n = 1
    while k > 2 and t.count(x) * k > (2000000 if D.quick else 30000000):
        k = k // 2 + 1
    lines = split(stretch(t, x, k) * n)
    D.begin(dict(d=d, q=q, e=e, text=t, stretched=[x, k], repeated=n))
    old = clevercsv.field_size_limit(1 << 30)
    try:
        if D.rng.random() < .5:
            rows, end, v = run_reader(iter(lines), d, q, e)
        else:
            rows, end, v = rows_of(parse_data(lines, delimiter=d, quotechar=q, escapechar=e, strict=False), clevercsv.Error)
    finally:
        clevercsv.field_size_limit(old)
    if not well_typed(rows):
        rows, end = [], "exc"
    rows = unrepeat(rows, n)
    D.emit(dict(op="parse", p=conf(d, q, e, limit=2000000000), l=[T(y) for y in split(t)], r=[[unstretch(c, x, k) for c in r] for r in rows],
                e="err" if end == "err" else "stop" if end == "stop" else "exc", hasq=False, q=[]), (d, q, e, t, k, n) if rows else None)


# ------------------------------------------------------------------ C02

class Counting:
    """An iterator over lines that counts what was consumed."""
    def __init__(self, lines):
        self.lines, self.n, self.hook = lines, 0, None

    def __iter__(self):
        return self

    def __next__(self):
        if self.hook is not None:
            self.hook()
        if self.n >= len(self.lines):
            raise StopIteration
        self.n += 1
        return self.lines[self.n - 1]


SOURCES = ["count", "count", "list", "gen", "stringio", "file", "tuple"]


class Live:
    """One reader in progress, through one of the entry points.  With `wide` = (x, k), every x of the lines is k copies;
    with `first` = (lines, rows, n), n copies of lines of so many whole records stand before the lines.  What is answered is
    what the short text would give, or no text at all."""

    def __init__(self, D, entry, source, lines, d, q, e, tag, wide=None, first=None):
        self.entry, self.source = entry, source
        self.wide, self.first, self.asked, self.seen, self.off = wide, first, 0, [], 0
        if first:
            lines = list(first[0]) * first[2] + list(lines)
        if wide:
            lines = [stretch(x, *wide) for x in lines]
        text = "".join(lines)
        self.counter = None
        self.file = None
        if source == "count":
            src = self.counter = Counting(lines)
        elif source == "list":
            src = list(lines)
        elif source == "tuple":
            src = tuple(lines)
        elif source == "gen":
            src = (x for x in list(lines))
        elif source == "stringio":
            src = io.StringIO(text, newline="")
        else:
            fn = os.path.join(D.work, "c02_%d_%s.csv" % (D.shard, tag))
            with open(fn, "w", newline="", encoding="utf-8") as f:
                f.write(text)
            src = self.file = open(fn, newline="", encoding="utf-8")
        dia = SimpleDialect(d, q, e)
        self.hasq = entry in ("parse_data_q", "parse_string_q")
        self.rd = None
        if entry == "reader":
            self.rd = self.it = clevercsv.reader(src, dia)
        elif entry == "reader_fmt":
            self.rd = self.it = clevercsv.reader(src, SimpleDialect("x", "y", "z"), delimiter=d, quotechar=q, escapechar=e)
        elif entry == "reader_iter":
            self.rd = clevercsv.reader(src, dia)
            self.it = iter(self.rd)
        elif entry.startswith("parse_data"):
            self.it = iter(parse_data(src, dia, return_quoted=self.hasq))
        elif entry.startswith("parse_string"):
            self.it = iter(parse_string(text, dia, return_quoted=self.hasq))

    def ask(self, r):
        if not self.first:
            return self.ask1(r)
        lines, m, n = self.first
        if self.asked == m:                # all other copies must give the same
            for i in range(m * (n - 1)):
                a, b = self.ask1(r), self.seen[i % m]
                j = i // m + 1
                want = dict(b, n=b["n"] + j * len(lines) if b["n"] >= 0 else -1, ln=b["ln"] + j * m if b["ln"] >= 0 else -1)
                if a != want:
                    return dict(a, k="exc")
            self.off = n - 1
        a = self.ask1(r)
        a = dict(a, n=a["n"] - self.off * len(lines) if a["n"] >= 0 else -1, ln=a["ln"] - self.off * m if a["ln"] >= 0 else -1)
        self.asked += 1
        self.seen.append(a)
        return a

    def ask1(self, r):
        k, v = outcome(lambda: next(self.it), clevercsv.Error)
        T = globals()["T"] if not self.wide else lambda c: unstretch(c, *self.wide)
        row, q = [], []
        if k == "row":
            if self.hasq:
                ok = type(v) is list and all(len(x) == 2 and type(x[0]) is str and type(x[1]) is bool for x in v)
                if ok:
                    row, q = [T(x[0]) for x in v], [x[1] for x in v]
            else:
                ok = type(v) is list and all(type(x) is str for x in v)
                if ok:
                    row = [T(x) for x in v]
            if not ok:
                k = "exc"
        ln = self.rd.line_num if self.rd is not None else -1
        n = self.counter.n if self.counter is not None and not self.entry.startswith("parse_string") else -1
        return dict(r=r, k=k, row=row, q=q, n=n, ln=ln)

    def close(self):
        if self.file:
            self.file.close()


ENTRIES = ["reader", "reader", "reader_iter", "reader_fmt", "parse_data", "parse_data_q", "parse_string", "parse_string_q"]


def records(lines, d, q, e):
    """The number of records, or 0 if the lines are no whole records."""
    if not lines or not lines[-1].endswith(("\r", "\n")) or lines[0].startswith("\n"):
        return 0
    rows, end, _ = rows_of(parse_data(list(lines), SimpleDialect(d, q, e, strict=True)), clevercsv.Error)
    return len(rows) if end == "stop" else 0


def enlarge(D, lines, d, q, e):
    """Make some characters wide and let many records go before."""
    rng = D.rng
    wide = first = None
    if rng.random() < .7:
        x = rng.choice([c for c in "xé→\U0001d11e" if c not in (d, q, e)])
        lines = ["".join(x if c not in (d, q, e, "\n", "\r") and rng.random() < .3 else c for c in y) for y in lines]
        k = rng.choice([2, 255, 1365, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 70001] + ([] if D.quick else [1 << 20]))
        while k > 2 and sum(y.count(x) for y in lines) * k > (400000 if D.quick else 4000000):
            k = k // 2 + rng.randint(0, 1)
        wide = (x, k, lines)
    if rng.random() < .5:
        f = split(structured_text(rng, d, q, e, 2, 3, 3).rstrip("\r\n").replace(wide[0] if wide else "\0", "") + "\n")
        m = records(f, d, q, e)
        if m:
            first = (f, m, rng.choice([2, 10, 127, 255, 256, 999, 1000, 1024] + ([] if D.quick else [4096, 20000])))
    return wide, first


def c02(D):
    D.rule = ("1-4 readers over random CSV-like texts with their own dialects, entry points (reader, parse_data, "
              "parse_string, with and without quoted flags) and sources (list, tuple, generator, counting iterator, "
              "StringIO, file); requests in random order, with extra iter() calls and requests after the end, and requests "
              "made by the line source of another reader while that reader is in the middle of a record; some with very long lines and "
              "many records before; plus "
              "every entry point and source on the same text; non-trivial: at least two readers that return records")

    def make(i, entry, source):
        d, q, e = rand_dialect(D.rng)
        if D.rng.random() < .5:
            d, q = ",", '"'
        t = structured_text(D.rng, d, q, e) if D.rng.random() < .6 else rand_text(D.rng, d, q, e, 40)
        lines = split(t)
        if source in ("count", "list", "gen", "tuple") and not entry.startswith("parse_string") and D.rng.random() < .3:
            lines = [x.rstrip("\r\n") for x in lines]
        return d, q, e, lines

    with D.guard(600):
        for c in range(D.n_cases(9000, 90000)):
            k = D.rng.randint(1, 4)
            large = c % 12 == 0
            if large:
                old = clevercsv.field_size_limit(1 << 30)
            live, rs = [], []
            for i in range(k):
                entry = D.rng.choice(ENTRIES)
                source = D.rng.choice(SOURCES)
                d, q, e, lines = make(i, entry, source)
                wide, first = enlarge(D, lines, d, q, e) if large else (None, None)
                if wide:
                    lines = [y for y in wide[2]]
                live.append((entry, source, lines, d, q, e))
                rs.append(dict(p=conf(d, q, e, limit=2000000000 if large else LIM), l=[T(x) for x in (list(first[0]) if first else []) + lines],
                               hasq=entry.endswith("_q")))
                live[-1] += (str(i), wide[:2] if wide else None, first)
            D.begin(dict(rs=live))
            objs = [Live(D, *x) for i, x in enumerate(live)]
            ev, dead, busy = [], set(), []

            def nested():
                """Another reader is asked while a reader is fetching its next line (which it may do mid-record)."""
                if D.rng.random() < .5:
                    free = [i for i in range(k) if i not in dead and i not in busy]
                    if free:
                        request(D.rng.choice(free))
                    elif D.rng.random() < .5:
                        list(clevercsv.reader(['zz,"yy', 'y"zz,zzzzzzzz'], SimpleDialect(",", '"', "")))

            def request(i):
                busy.append(i)
                r = objs[i].ask(i + 1)
                busy.pop()
                ev.append(r)
                if r["k"] != "row":
                    dead.add(i)
                return r
            if D.rng.random() < .5:
                for o in objs:
                    if o.counter is not None:
                        o.counter.hook = nested
            while True:
                todo = [i for i in range(k) if i not in dead]
                if not todo or len(ev) > 60:
                    break
                i = D.rng.choice(todo)
                if D.rng.random() < .1:
                    iter(objs[i].it)
                    continue
                r = request(i)
                if r["k"] == "stop" and D.rng.random() < .3:
                    ev.append(objs[i].ask(i + 1))
            for o in objs:
                o.close()
            if large:
                clevercsv.field_size_limit(old)
            D.emit(dict(rs=rs, ev=ev),
                   live if len({x["r"] for x in ev if x["k"] == "row"}) > 1 else None)
        # one text, every entry point and source
        for c in range(D.n_cases(1600, 16000)):
            d, q, e = rand_dialect(D.rng)
            t = structured_text(D.rng, d, q, e)
            lines = split(t)
            D.begin(dict(d=d, q=q, e=e, text=t))
            for j, (entry, source) in enumerate([(en, so) for en in dict.fromkeys(ENTRIES) for so in SOURCES]):
                if (j + c) % 4:
                    continue
                o = Live(D, entry, source, lines, d, q, e, "s")
                ev = []
                while not ev or (ev[-1]["k"] == "row" and len(ev) < 60):
                    ev.append(o.ask(1))
                o.close()
                D.emit(dict(rs=[dict(p=conf(d, q, e), l=[T(x) for x in lines], hasq=entry.endswith("_q"))], ev=ev),
                       (entry, source, t) if len(ev) > 1 else None)


def c02_replay(D):
    """Behaviours of ReaderSysSim, action by action, on real readers."""
    D.rule = "behaviours of ReaderSysSim replayed on three readers; non-trivial: all"
    with D.guard(600):
        for b in D.input():
            D.begin(b)
            objs = []
            for i, r in enumerate(b["rs"]):
                p = r["p"]
                objs.append(Live(D, D.rng.choice(["reader", "reader_iter", "parse_data_q"]), "count",
                                 [S(x) for x in r["l"]], ch(p["d"]), ch(p["q"]), ch(p["e"]), "r%d" % i))
            D.evals += 1
            D.nontrivial.add(hash(json_key(b)))
            for j, e in enumerate(b["log"]):
                o = objs[e["r"] - 1]
                r = o.ask(e["r"])
                bad = (r["k"] != e["k"] or
                       e["k"] == "row" and (r["row"] != e["row"] or (o.hasq and r["q"] != e["q"]) or r["n"] != e["n"]) or
                       r["ln"] not in (-1, e["ln"]))
                if bad:
                    D.violation("a behaviour of the specification is not a behaviour of the code",
                                dict(rs=b["rs"], step=j, want=e, got=r))
                    break


def json_key(x):
    import json
    return json.dumps(x, sort_keys=True)


# ------------------------------------------------------------------ C03

def c03(D):
    D.rule = ("texts as in C01 with errors injected: limits 0..8 and around them, NUL characters, lines that are not "
              "text (bytes, None, int, list), bare carriage returns, strict mode; exhaustive over short texts for "
              "limits 0..3 and strict mode; errors in very long lines and after many records; non-trivial: the read ends in an error after at least one character")
    NOT = [b"a,b\n", None, 3, ["a"], bytearray(b"x")]

    def one(d, q, e, lines, strict, limit, how):
        D.begin(dict(d=d, q=q, e=e, lines=repr(lines)[:2000], strict=strict, limit=limit, how=how))
        p = conf(d, q, e, strict, limit)
        quoted = None
        if how == 0:       # global limit, reader
            old = clevercsv.field_size_limit(limit)
            try:
                rows, k, v = run_reader(iter(lines), d, q, e, strict)
            finally:
                clevercsv.field_size_limit(old)
        elif how == 1:     # explicit limit
            rows, k, v = rows_of(parse_data(iter(lines), SimpleDialect(d, q, e, strict=strict), field_limit=limit),
                                 clevercsv.Error)
        else:              # limit at the time iteration began
            old = clevercsv.field_size_limit(D.rng.choice([limit, 0, 1, 5, 1000000]))
            try:
                rd = clevercsv.reader(lines, SimpleDialect(d, q, e), strict=strict)
                clevercsv.field_size_limit(limit)
                rd = iter(rd) if D.rng.random() < .5 else iter(iter(rd))
                clevercsv.field_size_limit(D.rng.choice([0, 1, 5, 1000000]))
                rows, k, v = rows_of(rd, clevercsv.Error)
            finally:
                clevercsv.field_size_limit(old)
        if not well_typed(rows):
            rows, k = [], "exc"
        D.emit(case(p, lines, rows, k), (d, q, e, repr(lines), strict, limit) if k == "err" else None)
        return rows, k

    def enlarged(d, q, e, lines, strict, limit):
        short = [x for x in lines if isinstance(x, str)]
        other = [(j, x) for j, x in enumerate(lines) if not isinstance(x, str)]
        wide, first = enlarge(D, short, d, q, e)
        if wide:
            short, limit = wide[2], 2000000000
        f, m, n = first or ([], 0, 1)
        lines = list(short)
        for j, x in other:
            lines.insert(j, x)
        w = wide[:2] if wide else ("x", 1)
        D.begin(dict(d=d, q=q, e=e, lines=repr(lines)[:2000], strict=strict, limit=limit, before=repr(f), copies=n, wide=w))
        src = f * n + [stretch(x, *w) if isinstance(x, str) else x for x in lines]
        old = clevercsv.field_size_limit(limit)
        try:
            if D.rng.random() < .5:
                rows, k, v = run_reader(iter(src), d, q, e, strict)
            else:
                rows, k, v = rows_of(parse_data(src, SimpleDialect(d, q, e, strict=strict)), clevercsv.Error)
        finally:
            clevercsv.field_size_limit(old)
        if not well_typed(rows):
            rows, k = [], "exc"
        if len(rows) > m:
            rows = unrepeat(rows[:m * n], n) + rows[m * n:] if m else rows
        c = case(conf(d, q, e, strict, limit), f + lines, [], k)
        c["r"] = [[unstretch(x, *w) for x in r] for r in rows]
        D.emit(c, (d, q, e, repr(lines), strict, n, w) if k == "err" else None)

    with D.guard(600):
        for i, (d, q, e, t) in enumerate(D.mine(exhaustive(4 if D.quick else 5))):
            one(d, q, e, split(t), i % 3 == 0, (i // 3) % 4, i % 2)
        for i in range(D.n_cases(20000, 250000)):
            d, q, e = rand_dialect(D.rng)
            t = rand_text(D.rng, d, q, e, 40) if i % 2 else structured_text(D.rng, d, q, e)
            strict = D.rng.random() < .5
            limit = D.rng.choice([LIM, LIM, D.rng.randint(0, 12), len(t), max(0, len(t) - 1)])
            lines = split(t)
            k = D.rng.random()
            if k < .15 and t:
                j = D.rng.randrange(len(t) + 1)
                lines = split(t[:j] + "\0" + t[j:])
            elif k < .3:
                lines.insert(D.rng.randint(0, len(lines)), D.rng.choice(NOT))
            elif k < .45 and lines:
                j = D.rng.randrange(len(lines))
                x = lines[j]
                c = D.rng.randint(0, len(x))
                lines[j] = x[:c] + "\r" + x[c:]
            elif k < .5:
                lines = [t]
            one(d, q, e, lines, strict, limit, D.rng.randrange(3))
        for i in range(D.n_cases(600, 6000)):      # errors in long lines and after many records
            d, q, e = rand_dialect(D.rng)
            t = structured_text(D.rng, d, q, e)
            if D.rng.random() < .5:
                t += D.rng.choice(["a", d, ""]) + q + "a" + (q + "x" if D.rng.random() < .6 else "")
            lines = split(t)
            k = D.rng.random()
            if k < .3:
                lines.insert(D.rng.randint(0, len(lines)), D.rng.choice(NOT))
            elif k < .5:
                lines.append("a" + D.rng.choice([d, ""]) + D.rng.choice(["\0", "\ra", "\r\0"]))
            enlarged(d, q, e, lines, D.rng.random() < .6, D.rng.choice([LIM, LIM, 1, 2, 3, 4]))
        # strict and non-strict mode on the same text
        for i in range(D.n_cases(20000, 250000)):
            d, q, e = rand_dialect(D.rng)
            t = structured_text(D.rng, d, q or '"', e)
            lines = split(t)
            D.begin(dict(d=d, q=q, e=e, text=t, what="strictpair"))
            r1, k1, _ = run_reader(iter(lines), d, q, e, True)
            r2, k2, _ = run_reader(iter(lines), d, q, e, False)
            c = case(conf(d, q, e), lines, r1, k1, op="strictpair")
            c["r2"] = [[T(x) for x in r] for r in r2]
            c["e2"] = k2
            D.emit(c, (d, q, e, t) if k1 == "err" else None)
        # limits at the growth points of the buffer, and the default limit
        big = [(n, n + k) for n in (4095, 4096, 4097, 8192) for k in (-1, 0, 1)]
        big += [(LIM, LIM), (LIM + 1, LIM)]
        if not D.quick:
            big += [(LIM - 1, LIM), (LIM, LIM - 1), (LIM, LIM + 1), (16384, 16383), (65536, 65536)]
        for j, (n, lim) in enumerate(big):
            if j % D.nshards != D.shard:
                continue
            one(",", '"', "\\", ["a,b\n", "x" * n + ",c\n"], False, lim, j % 2)
            if n < LIM:
                one(",", '"', "\\", ["a,b\n", '"' + "é" * (n - 2) + '",c\n'], True, lim, 0)


class Own(Exception):
    pass


class Rough:
    """A source of lines, some of which are no text or raise an exception of their own."""
    def __init__(self, lines):
        self.lines, self.n, self.own = lines, 0, None

    def __iter__(self):
        return self

    def __next__(self):
        if self.n >= len(self.lines):
            raise StopIteration
        self.n += 1
        x = self.lines[self.n - 1]
        if isinstance(x, Exception):
            self.own = x
            raise x
        return x


class Listed:
    """Lines that can be gone through again, like a list."""
    def __init__(self, lines):
        self.lines, self.n, self.own = lines, 0, None

    def __iter__(self):
        for i, x in enumerate(self.lines):
            self.n = i + 1
            yield x


def c03_after(D):
    D.rule = ("readers (given directly or wrapped in iter(), one to three of them over sources that may fail) asked on after errors: "
              "limits, NUL characters, bare carriage returns, strict mode, lines that are no text, exceptions of the source; "
              "non-trivial: a record is returned after an error")
    rng = D.rng
    NOT = [b"a,b\n", None, 3, ["a"]]
    with D.guard(600):
        for i in range(D.n_cases(8000, 80000)):
            rs, srcs, its, rds = [], [], [], []
            limit = rng.choice([LIM, LIM, rng.randint(0, 8)])
            for _ in range(rng.choice([1, 1, 2, 3])):
                d, q, e = rand_dialect(rng)
                strict = rng.random() < .6
                lines = split(structured_text(rng, d, q, e, 6, 3, 4))
                for _ in range(rng.randint(0, 3)):
                    k, j = rng.random(), rng.randint(0, len(lines))
                    if k < .3 and j < len(lines):
                        x, c = lines[j], rng.randint(0, len(lines[j]) if isinstance(lines[j], str) else 0)
                        if isinstance(x, str):
                            lines[j] = x[:c] + rng.choice(["\0", "\ra", q + "x", "\r"]) + x[c:]
                    elif k < .5:
                        lines.insert(j, rng.choice(NOT))
                    elif k < .7:
                        lines.insert(j, rng.choice([OSError, ValueError, Own, KeyError])("own"))
                    elif k < .85:
                        lines.insert(j, q + "a" + rng.choice([q + "b", d, e, "\n"]) + rng.choice(["", "\n"]))
                rs.append((conf(d, q, e, strict, limit), [[1114113] if isinstance(x, Exception) else T(x) if isinstance(x, str) else [1114112] for x in lines]))
                # a list itself, of which reading must not begin anew
                plain = rng.random() < .3 and not any(isinstance(x, Exception) for x in lines)
                srcs.append(Listed(lines) if plain else Rough(lines))
                rds.append((d, q, e, strict))
            D.begin(dict(rs=rs, limit=limit))
            old = clevercsv.field_size_limit(limit)
            try:
                for j, (d, q, e, strict) in enumerate(rds):
                    rds[j] = clevercsv.reader(srcs[j], SimpleDialect(d, q, e, strict=strict))
                    its.append(iter(rds[j]))
                ev, stops = [], 0
                while len(ev) < 60 and stops < 2 * len(its):
                    j = rng.randrange(len(its))
                    srcs[j].own = None
                    try:
                        k, v = "row", next(its[j])
                    except StopIteration:
                        k, v = "stop", None
                        stops += 1
                    except clevercsv.Error:
                        k = "err"
                    except Exception as ex:
                        k = "src" if ex is srcs[j].own else "exc"
                    row = []
                    if k == "row":
                        if well_typed([v]):
                            row = [T(x) for x in v]
                        else:
                            k = "exc"
                    ev.append(dict(r=j + 1, k=k, row=row, q=[], n=srcs[j].n, ln=rds[j].line_num))
            finally:
                clevercsv.field_size_limit(old)
            seen = set()
            after = False
            for x in ev:
                if x["k"] in ("err", "src"):
                    seen.add(x["r"])
                after = after or x["k"] == "row" and x["r"] in seen
            D.emit(dict(rs=[dict(p=p, l=l, hasq=False) for p, l in rs], ev=ev), (rs, [x["r"] for x in ev]) if after else None)
