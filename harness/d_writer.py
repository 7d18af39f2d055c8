"""Drivers for the writing and dialect properties (C04, C05, C08)."""
import csv
import io
import json
import os

import clevercsv
from clevercsv.cparser_util import parse_data
from clevercsv.dialect import SimpleDialect

from drv import T, C, S, ch, outcome, rows_of, unrepeat, unstretch
from d_parser import LIM, WIDE, conf, rand_dialect, rand_text, split, structured_text, well_typed

NL = {"\n": [10], "\r\n": [13, 10], "\r": [13]}


def csv_class(d, q, e, strict=False, nl="\n", quoting=csv.QUOTE_MINIMAL, more={}):
    return type("vdialect", (csv.Dialect,), dict(dict(
        delimiter=d, quotechar=q or None, escapechar=e or None, doublequote=True, skipinitialspace=False,
        lineterminator=nl, quoting=quoting if q else csv.QUOTE_NONE, strict=strict), **more))


class Form:
    """One way to hand over a dialect: use as form.args(writing)."""
    KINDS = ["simple", "converted", "instance", "class", "name", "_csv", "params", "simple+params", "class+params"]

    def __init__(self, kind, d, q, e, strict=False, nl="\n", quoting=csv.QUOTE_MINIMAL, more={}):
        self.more = more
        self.kind, self.d, self.q, self.e, self.strict, self.nl, self.quoting = kind, d, q, e, strict, nl, quoting
        self.name = None
        if kind in ("name", "_csv"):
            self.name = "verif-%d" % id(self)
            csv.register_dialect(self.name, csv_class(d, q, e, strict, nl, quoting, more))

    def args(self, writing):
        k = self.kind
        s = (self.d, self.q, self.e)
        if k == "simple":
            return SimpleDialect(*s, strict=self.strict), {}
        if k == "converted":
            return SimpleDialect(*s, strict=self.strict).to_csv_dialect(), {}
        cls = csv_class(*s, self.strict, self.nl, self.quoting, self.more)
        if k == "instance":
            return cls(), {}
        if k == "class":
            return cls, {}
        if k == "name":
            return self.name, {}
        if k == "_csv":
            return csv.get_dialect(self.name), {}
        if writing:
            par = dict(delimiter=self.d, quotechar=self.q or None, escapechar=self.e or None,
                       lineterminator=self.nl, quoting=self.quoting if self.q else csv.QUOTE_NONE,
                       doublequote=True, strict=self.strict)
        else:
            par = dict(delimiter=self.d, quotechar=self.q, escapechar=self.e, strict=self.strict)
        if k == "params":
            return "excel", par
        if k == "simple+params":
            return SimpleDialect("x", "y", "z"), par
        return csv_class("x", "y", "z"), par

    def close(self):
        if self.name:
            csv.unregister_dialect(self.name)


def nonzero_dialect(rng):
    while True:
        d, q, e = rand_dialect(rng)
        if d:
            return d, q, e


def rand_cell(rng, d, q, e, n=6):
    k = rng.random()
    if k < .15:
        return ""
    if k < .25:
        return rng.choice([q, e, d, q + q, e + e, "\n", "\r", "\r\n", " ", q + "a" + q, " " + q, "a" + e, e + q,
                           q + "\n", d + e, "\n\n"])
    return rand_text(rng, d, q, e, n)


def rand_table(rng, d, q, e, nrows=5, ncols=4, ragged=True):
    w = rng.randint(1, ncols)
    return [[rand_cell(rng, d, q, e) for _ in range(rng.randint(0, ncols) if ragged and rng.random() < .3 else w)]
            for _ in range(rng.randint(0, nrows))]


def wcase(form, ops, text, back, end, exc):
    return dict(p=conf(form.d, form.q, form.e, form.strict),
                w=dict(d=C(form.d), q=C(form.q), e=C(form.e), nl=NL[form.nl],
                       all=form.quoting not in (csv.QUOTE_MINIMAL, csv.QUOTE_NONE) and form.q != ""),
                ops=[dict(rows=[[T(x if type(x) is str else "" if x is None else str(x)) for x in r] for r in rows], err=err)
                     for rows, err in ops],
                t=T(text), b=[[T(x) for x in r] for r in back], e=end, exc=exc, ends=False)


def write_and_read(D, form, rform, table, batches):
    """Write the table (rows singly or in batches) and read it back."""
    ops, exc = [], False
    buf = io.StringIO(newline="")
    text, back, end = "", [], "stop"
    try:
        dia, par = form.args(True)
        w = clevercsv.writer(buf, dia, **par)
        i = 0
        while i < len(table):
            if batches and D.rng.random() < .4:
                rows = table[i:i + D.rng.randint(0, 3)]
                arg = rows if D.rng.random() < .5 else (iter(x) for x in rows)
                k, v = outcome(lambda: w.writerows(arg), clevercsv.Error)
            else:
                rows = table[i:i + 1]
                arg = rows[0] if D.rng.random() < .5 else tuple(rows[0])
                k, v = outcome(lambda: w.writerow(arg), clevercsv.Error)
            i += len(rows)
            exc = exc or k not in ("row", "err")
            ops.append((rows, k == "err"))
        text = buf.getvalue()
        dia, par = rform.args(False)
        back, end, v = rows_of(clevercsv.reader(io.StringIO(text, newline=""), dia, **par), clevercsv.Error)
        if not well_typed(back):
            back, exc = [], True
    except Exception as ex:
        exc = True
        text += " -- %s: %s" % (type(ex).__name__, ex)
    return wcase(form, ops, text, back, end, exc)


def scaled_write(D):
    """A table too long to be spelled out: copies of a character and of the rows (ScaleWriteMC, ScaleMC)."""
    rng = D.rng
    d, q, e = nonzero_dialect(rng)
    x = rng.choice([c for c in "xé→\U0001d11e" if c not in (d, q, e)])
    kind = rng.choice(Form.KINDS)
    nl = "\n" if kind in ("simple", "converted") else rng.choice(list(NL))
    f = Form(kind, d, q, e, rng.random() < .3, nl)
    table = [[c + x if rng.random() < .5 else c.replace("a", x) for c in r] for r in rand_table(rng, d, q, e, 3, 3)]
    total = rng.choice([3000, 9000, 70000, 140000] + ([] if D.quick else [1 << 21]))
    n = rng.choice([1, 1, 50, 5000])
    size = sum(len(c) + 2 for r in table for c in r) + 1
    n = max(1, min(n, total // size))
    k = max(1, total // n // size) if n == 1 or rng.random() < .5 else 1
    if kind == "simple+params" and rng.random() < .5:
        n, k = 1, rng.choice([4095, 4096, 4097, 8192, 65536, 131072, 131073])
    D.begin(dict(form=kind, d=d, q=q, e=e, table=table, stretched=[x, k], copies=n))
    big = [[c.replace(x, x * k) for c in r] for r in table]
    ops, exc, text, back, end = [], False, "", [], "stop"
    buf = io.StringIO(newline="")
    try:
        dia, par = f.args(True)
        w = clevercsv.writer(buf, dia, **par)
        ok = True
        for r in table:      # the rows that can be written
            try:
                clevercsv.writer(io.StringIO(newline=""), dia, **par).writerow(r)
            except clevercsv.Error:
                ok = False
        if n > 1 and not ok:
            n = 1
        if n > 1:
            w.writerows(big * n if rng.random() < .5 else iter(big * n))
            ops.append((table, False))
        else:
            for r, b in zip(table, big):
                o, v = outcome(lambda: w.writerow(b), clevercsv.Error)
                exc = exc or o not in ("row", "err")
                ops.append(([r], o == "err"))
        text = buf.getvalue()
        dia, par = f.args(False)
        old = clevercsv.field_size_limit(1 << 30)
        try:
            back, end, v = rows_of(clevercsv.reader(io.StringIO(text, newline=""), dia, **par), clevercsv.Error)
        finally:
            clevercsv.field_size_limit(old)
        if not well_typed(back):
            back, exc = [], True
    except Exception as ex:
        exc, n = True, 1
        text = "%s: %s" % (type(ex).__name__, ex)
    m = len(text) // n
    text = text[:m] if text == text[:m] * n else text[:m] + "\U0010ffff"
    c = wcase(f, ops, "", [], end, exc)
    c["p"]["limit"] = 2000000000
    c["t"] = unstretch(text, x, k)
    c["b"] = [[unstretch(y, x, k) for y in r] for r in unrepeat(back, n)]
    D.emit(c, (kind, d, q, e, table, n, k) if table else None)
    f.close()


def c04(D):
    D.rule = ("random ragged tables of cells full of delimiters, quotes, escapes, line ends and spaces (some with up to 120 columns, some with characters and rows repeated up to a hundred thousand times), written row by "
              "row and in batches (lists and iterators) with the dialect given in each of nine forms, three line "
              "terminators, all quoting levels, strict or not, and read back with the dialect in another form; all "
              "single cells up to length 3 (quick) over the hot characters; non-trivial: at least one cell is quoted "
              "or escaped")
    D.begin("pinned")
    rng = D.rng
    with D.guard(600):
        if D.shard == 0:
            pinned(D)
        for i, (d, q, e, cell) in enumerate(D.mine(small_cells(3 if D.quick else 4))):
            f = Form("simple", d, q, e)
            D.begin(dict(d=d, q=q, e=e, cell=cell))
            D.emit(write_and_read(D, f, f, [[cell]] if i % 2 else [["b", cell]], False), cell)
        for i in range(D.n_cases(24000, 250000)):
            d, q, e = nonzero_dialect(D.rng)
            strict = D.rng.random() < .3
            kind = D.rng.choice(Form.KINDS)
            nl, quoting = "\n", csv.QUOTE_MINIMAL
            if kind not in ("simple", "converted"):
                nl = D.rng.choice(list(NL))
                quoting = D.rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_MINIMAL, csv.QUOTE_ALL, csv.QUOTE_NONNUMERIC])
            f = Form(kind, d, q, e, strict, nl, quoting)
            g = Form(D.rng.choice(Form.KINDS), d, q, e, strict, nl, quoting) if D.rng.random() < .5 else f
            table = rand_table(D.rng, d, q, e) if i % 60 else rand_table(D.rng, d, q, e, 2, 120)
            if i % 8 == 0 and not set(d + q + e) & set("TrueFalseNo0123456789.-()'"):   # cells that are no texts are written as str() gives them
                table = [[rng.choice([None, 0, 1, -1.5, True, False, 10 ** 20, ()]) if rng.random() < .4 else c for c in r] for r in table]
            D.begin(dict(form=f.kind, d=d, q=q, e=e, table=table))
            c = write_and_read(D, f, g, table, True)
            D.emit(c, (kind, d, q, e, table) if len(c["t"]) > sum(len(str(x)) + 1 for r in table for x in r) + len(table)
                   else None)
            if g is not f:
                g.close()
            f.close()
        for _ in range(D.n_cases(400, 4000)):
            scaled_write(D)


def small_cells(n):
    import itertools
    for q in ("'", ""):
        for e in ("\\", ""):
            for k in range(n + 1):
                for t in itertools.product([",", "'", "\\", "\n", "\r", "a", " "], repeat=k):
                    yield ",", q, e, "".join(t)


def pinned(D):
    """Two forms of csv dialect that CleverCSV cannot express (see DESIGN.md)."""
    for name, kw, cell in [
            ("doublequote=False", dict(doublequote=False, quoting=csv.QUOTE_MINIMAL), '"a"'),
            ("QUOTE_NONE with a quotechar", dict(doublequote=True, quoting=csv.QUOTE_NONE), 'a"b')]:
        cls = type("vdialect", (csv.Dialect,), dict(delimiter=",", quotechar='"', escapechar="\\",
                                                     lineterminator="\n", skipinitialspace=False, strict=False, **kw))
        buf = io.StringIO(newline="")
        clevercsv.writer(buf, cls).writerow([cell])
        back, end, v = rows_of(clevercsv.reader(io.StringIO(buf.getvalue(), newline=""), cls), clevercsv.Error)
        D.evals += 1
        if back != [[cell]] or end != "stop":
            D.violation("the table read back is not the table written",
                        dict(form=name, cell=cell, text=buf.getvalue(), back=back))


# ------------------------------------------------------------------ C05

def comps(x):
    """A dialect's components as they are compared by the specification."""
    def c(v):
        return ord(v) if isinstance(v, str) and len(v) == 1 else 0 if v == "" else -7
    return dict(d=c(x.delimiter), q=c(x.quotechar), e=c(x.escapechar), s=x.strict if type(x.strict) is bool else None)


def c05(D):
    D.rule = ("order: lists of up to 7 dialects over components that differ in one place; conversion of every dialect "
              "over 9x8x7 components and both strictness values; forms: nine ways to give a dialect, format "
              "parameters overriding any subset of attributes, read through reader and DictReader with probe texts; "
              "rejection of None and longer strings for each attribute; non-trivial: the overriding or the form "
              "changes the parse of the probe text")
    rng = D.rng
    dels, quos, escs = [",", ";", "\t", "|", " ", "→", "\U0001d11e", "a", "", "-", ":"], ['"', "'", "~", "", "`", "\U0001d11f"], ["\\", "/", "", "§", "^"]
    with D.guard(600):
        for i in range(D.n_cases(2400, 30000)):
            base = SimpleDialect(rng.choice(dels), rng.choice(quos), rng.choice(escs), rng.random() < .5)
            ds = [base]
            for _ in range(rng.randint(1, 6)):
                x = rng.choice(ds)
                x = SimpleDialect(x.delimiter, x.quotechar, x.escapechar, x.strict)
                k = rng.randrange(5)
                if k == 0:
                    x.delimiter = rng.choice(dels)
                elif k == 1:
                    x.quotechar = rng.choice(quos)
                elif k == 2:
                    x.escapechar = rng.choice(escs)
                elif k == 3:
                    x.strict = not x.strict
                ds.append(x)
            rng.shuffle(ds)
            D.begin([repr(x) for x in ds])
            tab = lambda f: [[bool(f(a, b)) for b in ds] for a in ds]
            ident = {id(x): i + 1 for i, x in enumerate(ds)}
            D.emit(dict(op="order", ds=[comps(x) for x in ds], lt=tab(lambda a, b: a < b), le=tab(lambda a, b: a <= b),
                        gt=tab(lambda a, b: a > b), ge=tab(lambda a, b: a >= b), eq=tab(lambda a, b: a == b),
                        ne=tab(lambda a, b: a != b), hash=tab(lambda a, b: hash(a) == hash(b)),
                        sorted=[ident[id(x)] for x in sorted(ds)]), [repr(x) for x in ds])
        allc = [(d, q, e, s) for d in dels for q in quos for e in escs for s in (False, True)]
        for d, q, e, s in D.mine(allc):
            D.begin([d, q, e, s])
            x = SimpleDialect(d, q, e, s)
            exc = False
            zero = dict(d=-7, q=-7, e=-7, s=False)
            js, di, cv, eq, keys = zero, zero, zero, [], []
            try:
                t = x.serialize()
                o = json.loads(t)
                keys = [C(o[k]) for k in ("delimiter", "quotechar", "escapechar")] + [o["strict"]]
                if len(o) != 4 or type(t) is not str:
                    keys = []
                y = SimpleDialect.deserialize(t)
                js = comps(y)
                eq.append(y == x and x == y and hash(x) == hash(y))
                for z in (None, (d, q, e), [d, q, e, s], x.to_dict(), d, 0, x.serialize(), object()):   # nothing else is a dialect
                    eq.append((x == z) is False and (x != z) is True and (z == x) is False and x not in [z])
                y = SimpleDialect.from_dict(x.to_dict())
                di = comps(y)
                eq.append(y == x)
                if d:
                    for c in (x.to_csv_dialect(), type(x.to_csv_dialect())):
                        y = SimpleDialect.from_csv_dialect(c)
                        cv = comps(y)
                        eq.append(y == x)
            except Exception as ex:
                exc = True
                keys = [0, 0, 0, repr(ex) != ""]
            D.emit(dict(op="conv", x=comps(x), json=js, dict=di, csv=cv, eq=eq, keys=keys, exc=exc), (d, q, e, s))
        for i in range(D.n_cases(12000, 150000)):
            form_case(D, rng)
        bad = [(k, v) for k in ("delimiter", "quotechar", "escapechar") for v in (None, "ab", ",,", "\\\\\\")]
        bad += [("strict", v) for v in (None, "yes", 2)]
        for j, (k, v) in enumerate(D.mine(bad * (1 if D.quick else 5))):
            for base in ("excel", SimpleDialect(",", '"', ""), csv.excel, csv.excel(), "unix"):
                for entry in (clevercsv.reader, clevercsv.DictReader, clevercsv.writer, lambda f, **kw: clevercsv.DictWriter(f, ["a"], **kw)):
                    w = entry not in (clevercsv.reader, clevercsv.DictReader)
                    if w and v is None:     # means "none" to the csv module
                        continue
                    if w and k == "strict":
                        continue
                    D.begin(dict(key=k, value=repr(v), base=repr(base), writer=w))
                    r, x = outcome(lambda: entry(io.StringIO() if w else ["a,b\n"], dialect=base, **{k: v}), clevercsv.Error)
                    D.emit(dict(op="reject", raised=r != "row"), (k, repr(v), w))
            if k != "strict":
                a = dict(delimiter=",", quotechar='"', escapechar="")
                a[k] = v
                r, x = outcome(lambda: clevercsv.reader(["a,b\n"], SimpleDialect(**a)), clevercsv.Error)
                D.emit(dict(op="reject", raised=r != "row"), (k, repr(v), "simple"))
                r, x = outcome(lambda: clevercsv.DictReader(["a,b\n"], dialect=SimpleDialect(**a)), clevercsv.Error)
                D.emit(dict(op="reject", raised=r != "row"), (k, repr(v), "simple dict"))
        for v in (None, 3, "no such dialect", object(), [",", '"', ""]):
            for entry, f in ((clevercsv.reader, ["a,b\n"]), (clevercsv.writer, io.StringIO())):
                r, x = outcome(lambda: entry(f, v), clevercsv.Error)
                D.emit(dict(op="reject", raised=r != "row"), (repr(type(v)), f == []))


def form_case(D, rng):
    d, q, e = nonzero_dialect(rng)
    strict = rng.random() < .4
    kind = rng.choice(["simple", "converted", "instance", "class", "name", "_csv"])
    more = {}           # attributes of csv dialects that say nothing about reading
    if rng.random() < .4:
        more["doublequote"] = rng.random() < .5
        more["skipinitialspace"] = rng.random() < .3
    f = Form(kind, d, q, e, strict, rng.choice(list(NL)), rng.choice([csv.QUOTE_MINIMAL] * 2 + [csv.QUOTE_ALL, csv.QUOTE_NONNUMERIC]), more)
    par, o = {}, dict(d=-1, q=-1, e=-1, s=-1)
    d2, q2, e2 = d, q, e
    if rng.random() < .7:
        if rng.random() < .5:
            d2 = rng.choice([",", ";", "|", "\t", "→"])
            par["delimiter"], o["d"] = d2, C(d2)
        if rng.random() < .5:
            q2 = rng.choice(['"', "'", "~", ""])
            par["quotechar"], o["q"] = q2, C(q2)
        if rng.random() < .5:
            e2 = rng.choice(["\\", "/", ""])
            par["escapechar"], o["e"] = e2, C(e2)
        if rng.random() < .5:
            o["s"] = rng.randrange(2)
            par["strict"] = bool(o["s"])
        if rng.random() < .2:
            par["skipinitialspace"] = True
            par.pop("skipinitialspace")
    hot = [x for x in (d, q, e, d2, q2, e2) if x]
    if len({x for x in (d2, q2, e2) if x}) != sum(1 for x in (d2, q2, e2) if x):
        f.close()
        return
    t = "".join(rng.choice(hot + ["a", "b", "\n"]) for _ in range(rng.randint(0, 30)))
    if rng.random() < .5:
        t = structured_text(rng, rng.choice([d, d2]), rng.choice([q, q2]), rng.choice([e, e2]))
    lines = split(t)
    D.begin(dict(form=kind, d=d, q=q, e=e, par=par, text=t))
    exc, rd, dia = False, [], []
    try:
        a, _ = f.args(False)
        r = clevercsv.reader(lines, a, **par)
        if d2:
            x = r.dialect
            dia = [dict(d=C(x.delimiter), q=0 if x.quoting == csv.QUOTE_NONE else C(x.quotechar), e=C(x.escapechar),
                        s=bool(x.strict))]
        rows, end, v = rows_of(r, clevercsv.Error)
        rd.append((rows, end))
        a, _ = f.args(False)
        fn = ["c%d" % i for i in range(200)]
        g = clevercsv.DictReader(lines, fieldnames=fn, restkey="rest", dialect=a, **par)
        rows2, end2, v2 = rows_of(g, clevercsv.Error)
        # empty records do not show in dictionaries
        full = [r for r in rows if r]
        got = [[y for y in x.values() if y is not None] for x in rows2]
        if got == full:
            rd.append((rows, end2))
        else:
            rd.append((got, end2))
    except Exception as ex:
        exc = True
    c = dict(op="form", x=dict(d=C(d), q=C(q), e=C(e), s=strict), o=o, l=[T(x) for x in lines], exc=exc, dia=dia,
             rd=[dict(r=[[T(x) for x in y] for y in r], e=en) for r, en in rd])
    D.emit(c, (kind, d, q, e, repr(par), t) if par else None)
    f.close()


def c05_write(D):
    D.rule = ("tables written through the writer and DictWriter with the dialect in every form and format parameters "
              "overriding some attributes (the line terminator too), read back by the specification and the reader")
    rng = D.rng
    with D.guard(600):
        for i in range(D.n_cases(9000, 90000)):
            d, q, e = nonzero_dialect(rng)
            kind = rng.choice(["simple", "converted", "instance", "class", "name", "_csv"])
            nl = "\n" if kind in ("simple", "converted") else rng.choice(list(NL))
            f = Form(kind, d, q, e, nl=nl)
            if kind == "class" and rng.random() < .3:
                f.nl, nl = None, "\n"            # a dialect that names none
            par = {}
            d2, q2, e2 = d, q, e
            if rng.random() < .4:
                nl = rng.choice(list(NL))
                par["lineterminator"] = nl
                if rng.random() < .15:
                    par["lineterminator"], nl = None, "\n"
            if rng.random() < .6:
                d2 = rng.choice([",", ";", "|", "\t", "→"])
                par["delimiter"] = d2
            if rng.random() < .5:
                q2 = rng.choice(['"', "'", "~", ""])
                par["quotechar"] = q2 or None
                par["quoting"] = csv.QUOTE_MINIMAL if q2 else csv.QUOTE_NONE
            if rng.random() < .5:
                e2 = rng.choice(["\\", "/", ""])
                par["escapechar"] = e2 or None
            if len({x for x in (d2, q2, e2) if x}) != sum(1 for x in (d2, q2, e2) if x):
                f.close()
                continue
            eff = Form("simple", d2, q2, e2, nl=nl)
            table = rand_table(rng, rng.choice([d, d2]), rng.choice([q, q2]), rng.choice([e, e2]))
            if i % 3 == 0:
                table = [[x.replace("\r", "").replace("\n", "") for x in r] for r in table]
            D.begin(dict(form=kind, d=d, q=q, e=e, par=par, table=table))
            ops, exc, text, back, end = [], False, "", [], "stop"
            buf = io.StringIO(newline="")
            try:
                a, _ = f.args(True)
                if i % 2:
                    w = clevercsv.writer(buf, a, **par)
                    put = w.writerow
                else:
                    fn = ["c%d" % i for i in range(8)]
                    w = clevercsv.DictWriter(buf, fn, restval="", dialect=a, **par)
                    put = lambda r: w.writerow(dict(zip(fn, r)))
                    table = [(r + [""] * 8)[:8] for r in table]
                for r in table:
                    k, v = outcome(lambda: put(r), clevercsv.Error)
                    exc = exc or k not in ("row", "err")
                    ops.append(([r], k == "err"))
                text = buf.getvalue()
                back, end, v = rows_of(clevercsv.reader(io.StringIO(text, newline=""), SimpleDialect(d2, q2, e2)),
                                       clevercsv.Error)
            except Exception as ex:
                exc = True
            D.emit(dict(wcase(eff, ops, text, back, end, exc), ends=True), (kind, repr(par), table) if par else None)
            f.close()
