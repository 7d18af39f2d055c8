"""Drivers for files: writing tables (C09), reading them (C10)."""
import csv
import io
import itertools
import os
import pathlib

import clevercsv
from clevercsv import wrappers
from clevercsv.dialect import SimpleDialect
from clevercsv.exceptions import NoDetectionResult

from d_parser import conf, well_typed
from d_writer import Form, NL, nonzero_dialect, rand_cell, rand_table
from drv import C, S, T, ch, rows_of, unrepeat, unstretch

ENC = [("utf-8", 1114111), (None, 1114111), ("utf-16", 1114111), ("utf-8-sig", 1114111), ("latin-1", 255), ("ascii", 127), ("utf-32", 1114111)]
NOTKNOWN = [[-2]]


class Pulled:
    """An iterable that may be gone through once, and counts how often that was asked for."""

    def __init__(self, it):
        self.it, self.n = iter(it), 0

    def __iter__(self):
        self.n += 1
        return self.it


def path_form(rng, p):
    k = rng.randrange(4)
    return p if k < 2 else pathlib.Path(p) if k == 2 else os.fsencode(p)


def read_bytes(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def without_copies(text, n):
    """A text that ends with n copies of something, with one of them."""
    for m in range(len(text) // n, 0, -1):
        if text[-m:] * n == text[-n * m:]:
            return text[:len(text) - (n - 1) * m]
    return text[:1000] + "\U0010ffff"


def request(D, p, op, rows, transpose, form, enc, encmax, items=None, copies=1, x="x", k=1):
    """One call of write_table or write_dicts on the file p, recorded.  The table (or the items) may be there many times
    over, and the character x many times for each time it is recorded (ScaleWriteMC, ScaleMC)."""
    rng = D.rng
    before = read_bytes(p)
    pulled = None
    r = dict(op=op, transpose=transpose, p=conf(form.d, form.q, form.e, form.strict),
             w=dict(d=C(form.d), q=C(form.q), e=C(form.e), nl=NL[form.nl],
                    all=form.quoting not in (csv.QUOTE_MINIMAL, csv.QUOTE_NONE) and form.q != ""), enc=encmax)
    if op == "table":
        r["rows"] = [[T(c) for c in row] for row in rows]
        inner = rng.choice([list, tuple, lambda x: (c for c in x), list])
        big = [[c.replace(x, x * k) for c in row] * (copies if transpose else 1) for row in rows] * (1 if transpose else copies)
        if rng.random() < .15:      # a cell need not be text
            big = [[None if c == "" and rng.random() < .5 else int(c) if c == "1" else c for c in row] for row in big]
        arg = [inner(row) for row in big]
    else:
        names = list(items[0]) if items else []
        r["rows"] = [[T(n) for n in names]] if items else []
        for it in items:
            r["rows"].append(NOTKNOWN if set(it) - set(names) else [T(it.get(n, "")) for n in names])
        arg = [{a.replace(x, x * k): b.replace(x, x * k) for a, b in it.items()} for it in items]
        if copies > 1:
            arg = arg[:1] + arg[1:] * copies
    outer = rng.randrange(5)
    if outer == 1:
        arg = tuple(arg)
    elif outer == 2:
        arg = (x for x in arg)
    elif outer >= 3:
        arg = pulled = Pulled(arg)
    r["out"], what = "ok", ""
    kw = {}
    if enc is not None or rng.random() < .3:
        kw["encoding"] = enc
    d = form.args(True)[0]
    if not (form.kind == "class" and d is csv.excel):
        kw["dialect"] = d
    try:
        if op == "table":
            if transpose or rng.random() < .3:
                kw["transpose"] = transpose
            clevercsv.write_table(arg, path_form(rng, p), **kw)
        else:
            wrappers.write_dicts(arg, path_form(rng, p), **kw)
    except ValueError as e:     # UnicodeEncodeError is one, too
        r["out"] = "fails" if isinstance(e, UnicodeError) else "value"
    except clevercsv.Error:
        r["out"] = "fails"
    except Exception as e:
        r["out"], what = "exc", repr(e)
    after = read_bytes(p)
    r["pulls"] = pulled.n if pulled else 0
    r["same"] = before == after
    r["exists"] = after is not None
    text, back, end = "", [], "stop"
    if r["out"] == "ok" and after is not None:
        try:
            text = after.decode(enc or "utf-8")
            f = form.args(False)[0]
            back = clevercsv.read_table(p, dialect=f, encoding=enc or "utf-8") if rng.random() < .5 else \
                list(clevercsv.stream_table(p, dialect=f, encoding=enc or "utf-8"))
            if not well_typed(back):
                back, end = [], "exc"
        except Exception as e:
            end = repr(e)
    if copies > 1:
        text = without_copies(text, copies)
        h = 2 if op == "dicts" else 0
        back = back[:h] + unrepeat(back[h:], copies)
    r["text"], r["back"], r["bend"], r["what"] = unstretch(text, x, k), [[unstretch(c, x, k) for c in row] for row in back], end, what
    return r


def new_form(rng, d=None):
    d, q, e = d or nonzero_dialect(rng)
    kind = rng.choice(["simple", "converted", "instance", "class", "name", "_csv"])
    nl = quoting = None
    if kind in ("simple", "converted"):
        nl, quoting = "\n", csv.QUOTE_MINIMAL
    else:
        nl, quoting = rng.choice(list(NL)), rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_MINIMAL, csv.QUOTE_ALL])
    return Form(kind, d, q, e, rng.random() < .2, nl, quoting)


def encodable(s, enc):
    return not any(0xD800 <= ord(c) < 0xE000 or c == "\0" for c in s)


def c09(D):
    D.rule = ("histories of writes to one file: tables regular, ragged, empty, with empty rows, transposed or not, dictionaries with missing and unknown "
              "keys, as lists, tuples, generators and counted iterators, in six forms of dialect and seven encodings, onto missing, shorter and longer "
              "files; non-trivial: a table is stored over an older one or refused")
    rng = D.rng
    p = os.path.join(D.work, "target-%d.csv" % D.shard)

    def start():
        if os.path.exists(p):
            os.unlink(p)
        k = rng.randrange(3)
        if k:
            with open(p, "wb") as f:
                f.write([b"", b"old,content\r\n", b"x;y\n" * 400][rng.randrange(3)])

    def dicts(d, q, e):
        names = []
        for _ in range(rng.randint(0, 4)):
            n = rand_cell(rng, d, q, e, 4)
            if n not in names:
                names.append(n)
        out = []
        for i in range(rng.randint(0, 4)):
            it = {n: rand_cell(rng, d, q, e, 5) for n in names}
            if i and rng.random() < .3 and names:
                it.pop(rng.choice(names))
            if i and rng.random() < .15:
                it["unknown" + rand_cell(rng, d, q, e, 2)] = "x"
            ks = list(it)
            if i:
                rng.shuffle(ks)
            out.append({k: it[k] for k in ks})
        return out

    with D.guard(800):
        # all small tables
        cells = ["", "a", ",", "é"]
        small = [[]] + [[r] for n in range(3) for r in itertools.product(cells, repeat=n)] + \
                [list(t) for n, m in ((0, 0), (1, 1), (1, 2), (2, 1), (0, 1), (1, 0)) for t in
                 itertools.product(itertools.product(cells, repeat=n), itertools.product(cells, repeat=m))]
        for j, t in enumerate(D.mine(small)):
            ev = []
            for tr in (False, True):
                for d in ((",", '"', ""), (",", "", "")):
                    start()
                    f = Form("simple", *d)
                    enc, mx = ENC[(j + len(ev)) % len(ENC)]
                    D.begin(dict(table=t, transpose=tr, dialect=d, enc=enc))
                    ev.append(request(D, p, "table", t, tr, f, enc, mx))
            D.emit(ev, t)
        for h in range(D.n_cases(4400, 40000)):
            start()
            ev = []
            for _ in range(rng.randint(1, 4)):
                enc, mx = rng.choice(ENC)
                dia = nonzero_dialect(rng)
                while any(C(x) > mx for x in dia):
                    dia = nonzero_dialect(rng)
                f = new_form(rng, dia)
                if rng.random() < .65:
                    if rng.random() < .75:
                        w = rng.randint(0, 4)
                        t = [[rand_cell(rng, f.d, f.q, f.e) for _ in range(w)] for _ in range(rng.randint(0, 4))]
                    else:
                        t = rand_table(rng, f.d, f.q, f.e)
                    if mx == 1114111 or rng.random() < .6:
                        t = [[c if all(ord(x) <= mx for x in c) else "z" for c in r] for r in t]
                    if not all(encodable(c, enc) for r in t for c in r) or enc in ("utf-16", "utf-8-sig") and t and t[0] and t[0][0][:1] == "\ufeff":
                        continue
                    tr = rng.random() < .4
                    D.begin(dict(table=t, transpose=tr, form=f.kind, d=f.d, q=f.q, e=f.e, enc=enc))
                    ev.append(request(D, p, "table", t, tr, f, enc, mx))
                else:
                    items = dicts(f.d, f.q, f.e)
                    if mx < 1114111:
                        items = [{k: v for k, v in it.items() if all(ord(x) <= mx for x in k + v)} for it in items]
                    if not all(encodable(k + v, enc) for it in items for k, v in it.items()):
                        continue
                    D.begin(dict(items=items, form=f.kind, d=f.d, q=f.q, e=f.e, enc=enc))
                    ev.append(request(D, p, "dicts", None, False, f, enc, mx, items))
                f.close()
            if ev:
                D.emit(ev, [[e["rows"], e["transpose"], e["enc"]] for e in ev] if len(ev) > 1 or ev[0]["out"] != "ok" else None)
        for _ in range(D.n_cases(160, 1600)):
            if rng.random() < .8:
                start()
            many_rows(D, p)


def many_rows(D, p):
    """Tables and dictionaries in numbers: many rows, many columns, long cells; the last may be what is wrong."""
    rng = D.rng
    d, q, e = nonzero_dialect(rng)
    f = new_form(rng, (d, q, e))
    x = rng.choice([c for c in "xé→" if c not in (d, q, e)])
    enc, mx = rng.choice([(None, 1114111), ("utf-8", 1114111), ("utf-16", 1114111), ("utf-8-sig", 1114111)])
    total = rng.choice([2000, 9000, 20000, 70000, 140000] + ([] if D.quick else [1 << 21]))
    w = rng.randint(1, 3)
    cells = [["".join(c for c in rand_cell(rng, d, q, e) if encodable(c, enc) and c != "\ufeff") + rng.choice(["", x])
              for _ in range(w)] for _ in range(rng.randint(1, 3))]
    size = sum(len(c) + 2 for r in cells for c in r) + 2
    kind = rng.choice(["copies", "copies", "stretch", "both", "direct", "wrong", "wrong"])
    n = max(200, total // size) if kind in ("copies", "wrong") else 300 if kind == "both" else rng.choice([30, 100, 130]) if kind == "direct" else 1
    k = max(1, total // n // size) if kind in ("stretch", "both") else 1
    k = min(k, 131072 // (1 + max(len(c) for r in cells for c in r)))       # the reader's limit
    tr = rng.random() < .3
    D.begin(dict(kind=kind, table=cells, copies=n, stretched=[x, k], transpose=tr, form=f.kind, d=d, q=q, e=e, enc=enc))
    if rng.random() < .6:
        if kind in ("wrong", "direct"):
            t = cells * (n if kind == "direct" else min(n, 3000))
            if kind == "direct" and rng.random() < .5:
                t = [[c + str(j) * (j % 3) for j, c in enumerate(r * rng.choice([20, 43, 90]))] for r in [cells[0]] * rng.choice([1, 2, 3])]
            if kind == "wrong":
                i = rng.choice([len(t) - 1, len(t) // 2])
                t = t[:i] + [rng.choice([t[i] + ["y"], t[i][1:], t[i] + [""], [] if t[i] else ["z"]])] + t[i + 1:]
            elif tr and rng.random() < .5:
                t = [list(r) for r in zip(*t)]
            ev = request(D, p, "table", t, tr, f, enc, mx)
        else:
            ev = request(D, p, "table", cells, tr, f, enc, mx, copies=n, x=x, k=k)
    else:
        if kind == "direct":
            w = rng.choice([w, 17, 33, 65, 129, 260])
        names = []
        for i in range(w):
            names.append("%s%d" % (rng.choice(["n", "a", "b", "name", "zz"]), rng.choice([i, 1000 - i])))
        names = list(dict.fromkeys(names))
        items = [dict(zip(names, r * len(names))) for r in [cells[0]] + cells]
        if kind == "direct":
            n = min(n, 1 + 300 // w)
            for it in items:
                it.update((a, str(i)) for i, a in enumerate(names) if rng.random() < .5)
        if kind in ("wrong", "direct"):
            items = items[:1] + items[1:] * (n if kind == "direct" else min(n, 3000))
            if kind == "wrong":
                items[rng.choice([-1, len(items) // 2])] = {"unknown": "y"}
            elif rng.random() < .5:
                items[-1] = dict(list(items[-1].items())[::-1])
            ev = request(D, p, "dicts", None, False, f, enc, mx, items)
        else:
            ev = request(D, p, "dicts", None, False, f, enc, mx, items, copies=n, x=x, k=k)
    f.close()
    D.emit([ev], (kind, ev["op"], n, k, str(cells)))


def c09_replay(D):
    D.rule = "histories generated from TargetSim, replayed request by request; non-trivial: all"
    p = os.path.join(D.work, "target-r%d.csv" % D.shard)
    with D.guard(800):
        for beh in D.input():
            D.begin(beh)
            D.evals += 1
            D.nontrivial.add(hash(str(beh)))
            if os.path.exists(p):
                os.unlink(p)
            for j, e in enumerate(beh):
                enc = "ascii" if e["enc"] == 127 else D.rng.choice(["utf-8", "utf-16"])
                before = read_bytes(p)
                d = SimpleDialect(*[ch(c) for c in e["d"]])
                try:
                    clevercsv.write_table([[S(c) for c in r] for r in e["t"]], p, dialect=d, transpose=e["tr"], encoding=enc)
                    out = "ok"
                except UnicodeError:
                    out = "fails"
                except ValueError:
                    out = "value"
                except clevercsv.Error:
                    out = "fails"
                except Exception as x:
                    out = repr(x)
                why = None
                if out != e["out"]:
                    why = "the outcome is not that of the specification"
                elif not e["touch"] and read_bytes(p) != before:
                    why = "the file is touched"
                elif e["touch"]:
                    try:
                        got = [[T(c) for c in r] for r in clevercsv.read_table(p, dialect=d, encoding=enc)]
                    except Exception as x:
                        got = repr(x)
                    if got != e["rows"]:
                        why = "the table stored is not that of the specification"
                if why:
                    D.violation(why, dict(history=beh[:j + 1], out=out))
                    break


# ---------------------------------------------------------------- C10
def detect_by_hand(text, num, method="auto", skip=True):
    return clevercsv.Detector().detect(text[:num] if num else text, method=method, skip=skip)


def written_forms(rng, text):
    """The bytes of a text in some encoding, the encoding to ask for, and the text that reading gives."""
    k = rng.randrange(9)
    if k == 0:
        return text.encode("utf-8"), "utf-8", text
    if k == 1:
        return b"\xef\xbb\xbf" + text.encode("utf-8"), rng.choice(["utf-8-sig", None]), text
    if k == 2:
        return b"\xef\xbb\xbf" + text.encode("utf-8"), "utf-8", "\ufeff" + text
    if k == 3:
        e = rng.choice(["utf-16", "utf-32"])
        return text.encode(e), e, text
    if k == 4:
        e = rng.choice(["utf-16-le", "utf-32-be"])
        return text.encode(e), e, text
    if k == 5:
        e = rng.choice(["latin-1", "cp1252", "ascii", "shift_jis"])
        t = "".join(c if c.encode(e, "ignore") else "z" for c in text)
        return t.encode(e), e, t.encode(e).decode(e)
    return text.encode("utf-8"), None, None


def by_hand(raw, enc, p):
    """The encoding that is used for a file and its text, or None."""
    from clevercsv.encoding import get_encoding
    e = enc or get_encoding(p) or "utf-8"
    try:
        return e, io.TextIOWrapper(io.BytesIO(raw), encoding=e, newline="").read()
    except (UnicodeError, LookupError):
        return e, None


def frame_call(read_csv, a, k):
    """What a call of pandas.read_csv asks for: file, dialect, encoding, and the rest."""
    import inspect
    got = dict(inspect.signature(read_csv).bind(*a, **k).arguments)
    d = got.pop("dialect", None)
    f, enc = got.pop("filepath_or_buffer", None), got.pop("encoding", None)
    if d is not None:
        for x in ("sep", "delimiter", "quotechar", "escapechar", "doublequote", "quoting", "skipinitialspace"):
            got.pop(x, None)        # the dialect decides
    return f, d, enc, got


def c10(D):
    import contextlib
    import warnings

    import pandas

    import detlib
    from d_detect2 import csvish, text as dtext
    D.rule = ("CSV-like, random and large files in UTF-8 with and without byte-order mark, UTF-16, UTF-32 and one-byte encodings, with all line ends, "
              "read with every entry point with and without encoding, number of characters and dialect; the oracle decodes the bytes and detects on the "
              "text in memory; non-trivial: a table, or a detection that depends on the number of characters")
    rng = D.rng
    p = os.path.join(D.work, "in-%d.csv" % D.shard)
    q = os.path.join(D.work, "other-%d.csv" % D.shard)
    NOR = dict(d=-1, q=-1, e=-1)

    def rec(d):
        return NOR if d is None else dict(d=C(d.delimiter), q=C(d.quotechar), e=C(d.escapechar))

    def kwargs(enc, num, given, verbose):
        kw = {}
        if enc is not None or rng.random() < .2:
            kw["encoding"] = enc
        if num or rng.random() < .2:
            kw["num_chars"] = num
        if given is not None:
            kw["dialect"] = given
        if verbose:
            kw["verbose"] = True
        return kw

    def one(raw, enc, op, num, form, big=0):
        with open(p, "wb") as f:
            f.write(raw)
        e, text = by_hand(raw, enc, p)
        undec = text is None
        if undec:
            num = 0
        given = None
        if form is not None:
            given, d, q_, esc, strict = form
            if undec and (strict or "\0" in raw.decode(e or "utf-8", "replace")):
                return None           # another error may come first
        c = dict(op=op, x=[], given=form is not None, p=conf("", "", ""), nodet=False, out="ok", rows=[], part=True, r=NOR, undec=undec, what="")
        c["pass"] = True
        method, skip = rng.choice([("auto", True)] * 3 + [("normal", True), ("consistency", True), ("consistency", False), ("auto", False)]) \
            if op == "detect" else ("auto", True)
        if not undec:
            if form is None or op in ("detect", "frame"):
                det = detect_by_hand(text, num, method, skip)
                c["nodet"] = det is None
                if det is not None:
                    c["p"] = conf(det.delimiter, det.quotechar, det.escapechar)
            else:
                c["p"] = conf(d, q_, esc, strict)
            if not big:
                c["x"] = T(text)
        if op == "frame" and not undec and not c["nodet"] and c["p"]["d"] == 0:
            return None
        verbose = rng.random() < .1
        D.begin(dict(op=op, enc=enc, raw=raw[:3000], num=num, given=form and form[1:], path=p))
        pf = path_form(rng, p)
        partial = None
        try:
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if op in ("table", "dicts"):
                    kw = kwargs(enc, num, given, verbose)
                    stream = rng.random() < .5
                    c["part"] = stream
                    fn = {("table", False): clevercsv.read_table, ("table", True): clevercsv.stream_table,
                          ("dicts", False): clevercsv.read_dicts, ("dicts", True): clevercsv.stream_dicts}[op, stream]
                    if rng.random() < .1:           # a stream that is read halfway, in between
                        partial = clevercsv.stream_table(p, dialect="excel", encoding=enc or e)
                        for _ in zip(range(rng.randint(0, 3)), partial):
                            pass
                    rows = []
                    if stream:
                        try:
                            for row in fn(pf, **kw):
                                rows.append(row)
                        finally:
                            if not undec:
                                c["rows"] = rows
                    else:
                        c["rows"] = fn(pf, **kw)
                elif op == "detect":
                    kw = kwargs(enc, num, None, verbose)
                    if method != "auto":
                        kw["method"] = method
                    if not skip:
                        kw["skip"] = False
                    c["r"] = rec(clevercsv.detect_dialect(pf, **kw))
                else:
                    seen = []
                    real, pandas.read_csv = pandas.read_csv, lambda *a, **k: seen.append((a, k)) or "frame"
                    try:
                        extra = rng.choice([{}, {"nrows": 3}, {"header": None, "dtype": str}])
                        kw = dict(extra)
                        if enc is not None:
                            kw["encoding"] = enc
                        if num:
                            kw["num_chars"] = num
                        sf = rng.choice([p, pathlib.Path(p)])
                        got = clevercsv.read_dataframe(sf, **kw)
                        fc = frame_call(real, *seen[0]) if len(seen) == 1 else None
                        c["pass"] = got == "frame" and fc is not None and os.fspath(fc[0]) == p and (fc[2] or "utf-8") == e and fc[3] == extra
                        if fc is not None and fc[1] is not None:
                            c["r"] = rec(SimpleDialect.from_csv_dialect(fc[1]))
                    finally:
                        pandas.read_csv = real
        except NoDetectionResult:
            c["out"] = "none"
        except clevercsv.Error as x:
            c["out"], c["what"] = "error", repr(x)
        except (UnicodeError, LookupError) as x:
            c["out"], c["what"] = "decode" if undec else "exc", repr(x)
        except Exception as x:
            c["out"], c["what"] = "exc", repr(x)
        if partial is not None:
            partial.close()
        if big:
            return c, text
        try:
            if op == "dicts":
                from d_dict import pairs
                c["rows"] = [pairs(r) for r in c["rows"]]
            else:
                c["rows"] = [[T(x) for x in r] for r in c["rows"]]
        except Exception as x:              # not rows of texts
            c["rows"], c["out"], c["what"] = [], "exc", repr(x)
        c["num"] = num or 0
        D.emit(c, (c["x"], num, op) if len(c["rows"]) > 1 or num and op == "detect" else None)

    def given_form():
        d, q_, esc = nonzero_dialect(rng)
        k = rng.randrange(4)
        strict = rng.random() < .1
        if k == 0:
            return None if rng.random() < .5 else ("excel", ",", '"', "", False)
        if k == 1:
            return SimpleDialect(d, q_, esc, strict=strict), d, q_, esc, strict
        if k == 2:
            return SimpleDialect(d, q_, esc, strict=strict).to_csv_dialect(), d, q_, esc, strict
        return ("excel-tab", "\t", '"', "", False) if rng.random() < .2 else (SimpleDialect(d, q_, esc), d, q_, esc, False)

    with D.guard(850):
        for i in range(D.n_cases(6400, 80000)):
            k = rng.random()
            if k < .6:
                text = csvish(rng, rng.choice([30, 60, 120]))
            elif k < .75:
                text = rng.choice(["", "a", "\n", "\r\n\r\n", "a,b\nc", "a;b\r\nc;d\r\n", "\ufeffa,b\n1,2\n", "a\n\nb\n", "a,a\r1,2\r"])
            else:
                text = dtext(rng, rng.choice([10, 40]))
            text = "".join(c for c in text if c != "\0" and not 0xD800 <= ord(c) < 0xE000)
            if rng.random() < .2:
                text += rng.choice("éßñ日Ω") + text[:5]
            raw, enc, _ = written_forms(rng, text)
            if rng.random() < .04:
                enc, cut = rng.choice(["utf-8", "ascii", "utf-16"]), rng.randint(0, len(raw))
                raw = raw[:cut] + b"\xff\xfe\xfd" + raw[cut:]
            num = rng.choice([0, 0, None, 1, 5, 10, 20, len(text), len(text) + 3, max(0, len(text) - 1), rng.randint(0, len(text) + 1)])
            op = rng.choice(["table", "table", "table", "dicts", "dicts", "detect", "detect", "frame"])
            one(raw, enc, op, num, given_form() if op in ("table", "dicts") and rng.random() < .5 else None)
        # the encoding of a file
        from clevercsv.encoding import get_encoding
        fill = b"some plain text, again and again\n"
        probes = [("plain", fill, lambda e: e is not None and e.lower() in ("ascii", "utf-8")),
                  ("bom8", b"\xef\xbb\xbf" + fill, lambda e: e and e.lower() in ("utf-8-sig",)),
                  ("bom16", "a,b\n1,2\n".encode("utf-16"), lambda e: e and e.lower().startswith("utf-16")),
                  ("utf8", "é,ü,日本\nñ,ö,Ωμέγα\n".encode() * 5, lambda e: e and e.lower() == "utf-8"),
                  ("late8", fill * (66000 // len(fill) + 40 * D.shard) + "é日本ñΩ,ü\n".encode() * 20, lambda e: e and e.lower() == "utf-8"),
                  ("verylate8", fill * (140000 // len(fill)) + "é日本ñΩ,ü\n".encode() * 20, lambda e: e and e.lower() == "utf-8"),
                  ("exact", (fill * 4000)[:65536], lambda e: e is not None)]
        for name, raw, good in probes:
            for fc in (True, False):
                with open(p, "wb") as f:
                    f.write(raw)
                D.begin(dict(enc=name, cchardet=fc))
                try:
                    e = get_encoding(path_form(rng, p), try_cchardet=fc)
                    ok = bool(good(e))
                    raw.decode(e)
                except Exception as x:
                    e, ok = repr(x), False
                c = dict(op="enc", x=[], given=False, p=conf("", "", ""), nodet=False, out="ok", rows=[], part=True, r=NOR, undec=False,
                         what="%s %s %s" % (name, fc, e))
                c["pass"] = ok
                D.emit(c, (name, fc, D.shard))
        # files larger than any buffer, with an end that counts for detection: compared with the text read in memory
        sizes = [8190, 8192, 33000, 66000, 132000, 270000, 550000, 1050000]
        jobs = [(op, size) for size in sizes for op in ("table", "dicts", "detect", "frame")]
        jobs += [(rng.choice(["table", "dicts", "detect", "frame"]), -rng.choice(sizes[:5])) for _ in range(8 if D.quick else 160)]
        for op, size in D.mine(jobs):
            whole, size = size > 0, abs(size)
            k = rng.randrange(3)
            unit = ["1,2,3\n", "12\n", "ab;cd\n"][k]
            text = unit * (size // len(unit) + 1) + rng.choice(['"x', '"x"', "" if not whole else '"x'])
            if rng.random() < .3:
                text = text.replace("\n", "\r\n")
            enc = rng.choice([None, "utf-8", "utf-16"])
            raw = text.encode(enc or "utf-8")
            num = rng.choice([0, None] if whole else [0, None, 0, len(text), len(text) - 1, 8192, 8191, 1000])
            given = rng.choice([None, ("excel", ",", '"', "", False), (SimpleDialect(";", "", ""), ";", "", "", False),
                                (SimpleDialect("", '"', ""), "", '"', "", False)]) if op in ("table", "dicts") and rng.random() < .4 else None
            r = one(raw, enc, op, num, given, big=1)
            if r is None:
                continue
            c, text = r
            D.evals += 1
            pd = SimpleDialect(ch(c["p"]["d"]), ch(c["p"]["q"]), ch(c["p"]["e"]))
            what = None
            if c["nodet"]:
                if op == "detect" and c["r"] != NOR or op != "detect" and c["out"] != "none":
                    what = "NoDetectionResult is not raised"
            elif op in ("detect", "frame"):
                if c["out"] != "ok" or c["r"] != rec(pd) or not c["pass"]:
                    what = "not the dialect detected on the text"
            else:
                want = list((clevercsv.reader if op == "table" else lambda f, d: clevercsv.DictReader(f, dialect=d))(io.StringIO(text, newline=""), pd))
                if c["out"] != "ok" or c["rows"] != want:
                    what = "not the table of the whole file in that dialect"
            if what:
                D.violation(what, dict(op=op, text=text[:60], end=text[-20:], size=len(text), num=num, enc=enc, out=c["out"], what=c["what"], r=c["r"], p=c["p"]))
