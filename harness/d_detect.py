"""Drivers for the detection properties."""
import io
import itertools
import unicodedata

import clevercsv
from clevercsv import detect_pattern
from clevercsv.dialect import SimpleDialect

import d_types
from drv import T, C, stretch, unrepeat, unstretch
from d_parser import rand_dialect, rand_text, run_reader, structured_text


def million(x):
    return int(round(x * 1e6))


def c17(D):
    D.rule = ("texts: exhaustive over {a, delimiter, quote, escape, LF, CR} up to a length for each presence pattern "
              "of the dialect, random and CSV-like texts over ASCII and beyond, texts around the buffer sizes "
              "512*2^k with up to hundreds of quoted regions, and texts in which characters and rows are repeated up to hundreds of thousands of times, or have hundreds of row patterns; non-trivial: the abstraction has a delimiter or row end")

    def one(d, q, e, t, eps=None):
        D.begin(dict(d=d, q=q, e=e, t=t[:3000]))
        p = dict(d=C(d), q=C(q), e=C(e))
        dia = SimpleDialect(d, q, e)
        try:
            a = detect_pattern.make_abstraction(t, dia)
            s = detect_pattern.pattern_score(t, dia) if eps is None else detect_pattern.pattern_score(t, dia, eps=eps)
            exc = False
        except Exception as ex:
            a, s, exc = repr(ex), 0, True
        D.emit(dict(p=p, t=T(t), a=T(a), eps=1000 if eps is None else million(eps), s=million(s), exc=exc, n=1, ls=[]),
               (d, q, e, t) if ("D" in a or "R" in a) and not exc else None)

    def lengths():
        """Rows of plain cells, in many lengths (RowLengths.tla)."""
        m = rng.choice([2, 5, 16, 40, 70, 130, 150, 260, 300])
        k = rng.random()
        ls = list(range(1, m + 1)) if k < .4 else [rng.randint(1, m) for _ in range(rng.choice([3, m, 300]))] if k < .8 else \
            [1] * rng.randint(1, 200) + [m] + [2] * rng.randint(0, 99)
        k < .5 and rng.shuffle(ls)
        n = rng.choice([1, 1, 2, 7, 40])
        eps = rng.choice([None, None, .5, 0.0])
        d, q, e = rng.choice([(",", "'", "\\"), (";", "", ""), ("\t", '"', "")])
        t = "".join(d.join(["a"] * x) + "\n" for x in ls) * n
        D.begin(dict(d=d, q=q, e=e, lengths=ls, repeated=n))
        dia = SimpleDialect(d, q, e)
        try:
            a = detect_pattern.make_abstraction(t, dia)
            s = (detect_pattern.pattern_score(t, dia) if eps is None else detect_pattern.pattern_score(t, dia, eps=eps)) / n
            exc = False
        except Exception as ex:
            a, s, exc = repr(ex), 0, True
        a = [len(r) // 2 + 1 if r == "D".join("C" * (len(r) // 2 + 1)) else -1 for r in a.split("R")]
        a = a[:len(ls)] + ([] if a == a[:len(ls)] * n else [-2])
        D.emit(dict(p=dict(d=C(d), q=C(q), e=C(e)), t=[], a=a, eps=1000 if eps is None else million(eps), s=million(s), exc=exc, n=n, ls=ls), ls if not exc else None)

    def scaled(i):
        """Copies of a character or of whole rows (Scale.tla)."""
        d, q, e = rand_dialect(rng)
        x = rng.choice([c for c in "xé→\U0001d11e" if c not in (d, q, e)])
        t = structured_text(rng, d, q, e, 3, 3) if i % 5 else (q + "a" + q + d) * rng.randint(1, 3) + q + "b" + q
        t = "".join(x if c not in (d, q, e, "\n", "\r") and rng.random() < .3 else c for c in t) + rng.choice(["", x])
        k = rng.choice([1, 2, 511, 512, 513, 4096, 65536, 70000] + ([] if D.quick else [1 << 20]))
        n = rng.choice([1, 3, 700, 4096, 17000, 33000, 66000] + ([] if D.quick else [70000, 300000]))
        if n > 1:
            t = t.strip("\r\n") + "\n"
        while k * n * (len(t) + 5) > (1200000 if D.quick else 30000000) and k > 1:
            k = k // 2
        big = stretch(t, x, k) * n
        D.begin(dict(d=d, q=q, e=e, t=t, stretched=[x, k], repeated=n))
        dia = SimpleDialect(d, q, e)
        try:
            a = detect_pattern.make_abstraction(big, dia)
            s = detect_pattern.pattern_score(big, dia)
            exc = False
        except Exception as ex:
            a, s, exc = repr(ex), 0, True
        if n > 1:
            a0 = a[:(len(a) + 1) // n - 1]
            a = a0 if a == "R".join([a0] * n) else a0 + "???"
            s /= n
        D.emit(dict(p=dict(d=C(d), q=C(q), e=C(e)), t=T(t), a=T(a), eps=1000, s=million(s), exc=exc, n=n, ls=[]),
               (d, q, e, t, k, n) if not exc else None)

    def alltexts(n):
        for mask in range(8):
            d, q, e = (m if mask >> i & 1 else "" for i, m in enumerate(",'\\"))
            for k in range(n + 1):
                for t in itertools.product("a,'\\\n\r", repeat=k):
                    yield d, q, e, "".join(t)

    rng = D.rng
    with D.guard(600):
        for d, q, e, t in D.mine(alltexts(5 if D.quick else 6)):
            one(d, q, e, t)
        for i in range(D.n_cases(12000, 160000)):
            d, q, e = rand_dialect(rng)
            t = rand_text(rng, d, q, e, 60) if i % 3 else structured_text(rng, d, q, e, 6, 5)
            one(d, q, e, t, rng.choice([None, None, None, .5, 0.000001, 0.25, 0.0]))
        k = 0
        for n in [500, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049] + ([] if D.quick else [4096, 4097, 8193]):
            for shape in range(9):
                k += 1
                if k % D.nshards != D.shard:
                    continue
                if shape == 0:
                    t = "'a'," * (n // 4)
                elif shape == 1:
                    t = "," * n
                elif shape == 2:
                    t = "\n,".join("'x,''y'" for _ in range(n // 8))
                elif shape == 3:
                    t = "".join("\\,x" for _ in range(n // 2))
                elif shape == 4:
                    t = "'" * n + ",a\n"
                elif shape == 5:
                    t = "".join(rng.choice(",'\n") for _ in range(n))
                elif shape == 6:
                    t = "".join(rng.choice("a,'\\\n\r→\U0001d11e") for _ in range(n))
                elif shape == 7:
                    t = ("a,b,c\n" * (n // 6))[:n]
                else:
                    t = "\\'" * (n // 2) + ",\\"
                for d, q, e in ((",", "'", "\\"), (",", "'", ""), ("", "'", "\\")):
                    one(d, q, e, t)
        for i in range(D.n_cases(300, 3000)):
            scaled(i)
            lengths()


# ------------------------------------------------------------------ candidates (C21)

def cats(s):
    return [[ord(c), unicodedata.category(c)] for c in sorted(set(s) | {"U"})]


def dias(ds):
    return [dict(d=C(x.delimiter), q=C(x.quotechar), e=C(x.escapechar)) for x in ds]


SYMS = [c for c in "abZ019 ,;|\t:.-_/\\'\"`~!?*&#%@^$€<>=+()[]{}«»、。…§¶¿·–—éßΩж中٣²Ⅷ\u200b\u00ad\x1b\n\r\U0001d11e\U0001f600\ue000"
        if d_types.stable(c) or c in "\ue000\U0001f600"]


def messy(rng, n):
    """Text of a small alphabet, with URLs in between."""
    alpha = rng.sample(SYMS, rng.randint(2, 7)) + rng.sample(list(",;|\t'\"\\a\n~`"), 4)
    out = []
    for _ in range(rng.randint(0, n)):
        k = rng.random()
        out.append(d_types.url(rng) if k < .05 else rng.choice(alpha))
    return "".join(out)


ENCS = ["UTF-8", "utf-8", "ascii", "latin-1", "utf-16", "utf-8-sig", "cp1252", "UTF-32"]


def c21(D):
    from clevercsv.potential_dialects import get_dialects
    try:
        from clevercsv.potential_dialects import filter_urls
    except ImportError:
        filter_urls = None
    D.rule = ("texts: exhaustive over {a, comma, quote, backslash, tilde, dot} up to a length; random texts over small "
              "alphabets of characters of all Unicode categories, with URLs; with and without given delimiters, removal of "
              "masked delimiters, and encodings; what matters far down in long texts, across powers of two; non-trivial: at least 4 candidates")
    rng = D.rng

    def one(t, given, masked, enc="UTF-8", pad=None):
        """With pad = (text, filler, n), the text and n copies of the filler stand before t."""
        if not all(c in SYMS or d_types.stable(c) for c in t):
            return
        at, f = 0, ""
        if pad:
            a, f, n = pad
            at, t, small = len(a), a + f * n + t, a + f + f + t
        try:
            t.encode(enc)
        except UnicodeError:
            enc = "UTF-8"
        D.begin(dict(t=t, given=given, masked=masked, enc=enc))
        try:
            kw = {} if enc == "UTF-8" else dict(encoding=enc)
            if given is not None:
                kw["delimiters"] = given
            if masked:
                kw["test_masked_by_quotes"] = True
            r = dias(get_dialects(t, **kw))
            nu = filter_urls(t) if filter_urls else ""
            if pad and filter_urls:
                i = nu.find(f * n)
                nu = nu[:i] + f + f + nu[i + n * len(f):] if i >= 0 else "???"
            nu = T(nu)
            exc = False
        except Exception:
            r, nu, exc = [], [], True
        if pad:
            t = small
        D.emit(dict(f=T(f), at=at + 1, x=d_types.X(t), cats=cats(t), given=[-1] if given is None else [ord(c) for c in given if len(c) == 1],
                    masked=masked, r=r, hasnu=filter_urls is not None, nu=nu, exc=exc, enc=enc),
               (t, given, masked) if len(r) > 3 else None)

    def givens():
        k = rng.random()
        return (None if k < .6 else [] if k < .63 else rng.sample([",", ";", "|", "\t", " ", ":", "a", "~", "'", "\n"], rng.randint(1, 4))
                if k < .9 else [",", "ab", ";"] if k < .95 else list("é中0.\\"))

    with D.guard(600):
        for n in range(6 if D.quick else 7):
            for x in D.mine(itertools.product("a,'\\~.", repeat=n)):
                if n >= 5 and D.quick and rng.random() < .5:
                    continue
                one("".join(x), None, rng.random() < .5)
        for _ in range(D.n_cases(7000, 100000)):
            one(messy(rng, 40), givens(), rng.random() < .4, rng.choice(ENCS) if rng.random() < .2 else "UTF-8")
        for _ in range(D.n_cases(48, 600)):   # many different characters
            n = rng.choice([40, 70, 105, 130]) if D.quick else rng.choice([60, 130, 260])
            a = rng.randrange(0x4e00, 0x9fa5 - n)
            body = [chr(a + i) for i in range(n)]
            for _ in range(rng.randint(1, 6)):
                body.insert(rng.choice([n, n, rng.randrange(n)]), messy(rng, 6))
            one("".join(body), givens(), rng.random() < .2)
        for _ in range(D.n_cases(400, 6000)):     # far down in a text, and across the bounds of whatever it may be split into
            t = messy(rng, 12)
            k = rng.random()
            if k < .25:
                t = rng.choice(["\\,", "a\\'b", "'a,b'", "~", "@;", "\\'", "'\\", "é", "x.com/a~b,c", "a|'b|"]) + rng.choice(["", "\n", "a"])
            f = rng.choice(["ab c\n", "1,2\n", "a\n", "x;y;z\n", "a,b|c\td 12\n"])
            a = rng.choice(["", "", "a", "'", "a'b\n", "http://a.bc/d\n", "\\", "~\n"])
            end = (1 << rng.randint(9, 16 if D.quick and rng.random() < .96 else 20)) + rng.choice([0, 0, 0, 1, 2, -1]) - rng.randint(0, len(t) + 1)
            if rng.random() < .2:
                end = rng.choice([1000, 10000, 50000, 100000, 100000, 200000, 1000000][:5 if D.quick and rng.random() < .8 else 7]) - rng.randint(0, len(t))
            n, m = divmod(max(0, end - len(a)), len(f))
            one(t, givens(), rng.random() < .4, rng.choice(ENCS) if rng.random() < .1 else "UTF-8", ("x" * m + a, f, max(2, n)))
        for _ in range(D.n_cases(4000, 60000)):   # URL boundaries
            u = d_types.url(rng)
            if rng.random() < .5:
                u = d_types.mutate(rng, u)
            one(rng.choice(["", "a,", "~", " ", "é", "-", "1"]) + u + rng.choice(["", ",b", ";", "~'", "-x", "/|", ":80", "."]) +
                (rng.choice([",", ";", " "]) + d_types.url(rng) if rng.random() < .3 else ""), None, False)
        for _ in range(D.n_cases(4000, 60000)):   # masked delimiters
            q = rng.choice("'\"~")
            alpha = ["a", ",", q, q, ",", rng.choice(["\\", "¶", "\n", ";"]), rng.choice("\\ '")]
            one("".join(rng.choice(alpha) for _ in range(rng.randint(3, 16))), None, True)
        for c in D.mine(sorted(set(SYMS) | set(d_types.ODD))):
            one("a" + c + "b", None, False)
            one(c + ",'", None, False)
            one("x'" + c + "'" + c + c, None, True)


def c21_parts(D):
    """The functions that find delimiters, quote characters and escape characters, asked for something else than usual."""
    D.rule = ("texts of characters of all Unicode categories; excluded characters and categories, quote characters and candidate delimiters of the caller's own; "
              "non-trivial: something else than with the usual ones")
    try:
        from clevercsv.escape import is_potential_escapechar
        from clevercsv.potential_dialects import get_delimiters, get_quotechars
    except ImportError:
        return
    rng = D.rng
    allcats = ["Lu", "Ll", "Lt", "Lm", "Lo", "Nd", "Nl", "No", "Ps", "Pe", "Co", "Po", "Pd", "Sm", "Sc", "Zs", "Cc", "Sk", "So", "Pc", "Pi", "Pf"]

    def some(t):
        pool = sorted(set(t)) + list(",;|\t'\"~`.\\/@")
        xs = sorted(set(rng.sample(pool, rng.randint(0, min(5, len(pool))))))
        return xs

    with D.guard(600):
        for _ in range(D.n_cases(4000, 40000)):
            t = messy(rng, rng.choice([3, 15, 40]))
            if not all(c in SYMS or d_types.stable(c) for c in t):
                continue
            enc = rng.choice(["UTF-8", "utf-8", "ascii"]) if rng.random() < .8 else rng.choice(ENCS)
            try:
                t.encode(enc)
            except UnicodeError:
                enc = "UTF-8"
            op = rng.choice(["delimiters", "delimiters", "quotes", "escapes"])
            own, owncats, given = rng.random() < .6, op == "delimiters" and rng.random() < .5, None
            chars, bcats = some(t) if own else [], rng.sample(allcats, rng.randint(0, 8)) if owncats else []
            if op == "delimiters" and rng.random() < .3:
                given = some(t)
            kind = rng.choice([list, tuple, set, "".join])
            c = dict(op=op, t=T(t), cats=cats(t), given=[-1] if given is None else [ord(x) for x in given], own=own, chars=[ord(x) for x in chars],
                     owncats=owncats, bcats=bcats, r=[], exc=False)
            D.begin(dict(op=op, t=t, enc=enc, given=given, chars=chars if own else None, cats=bcats if owncats else None))
            try:
                if op == "delimiters":
                    kw = {}
                    if given is not None:
                        kw["delimiters"] = given
                    if own:
                        kw["block_char"] = list(chars)
                    if owncats:
                        kw["block_cat"] = list(bcats)
                    r = get_delimiters(t, enc, **kw)
                elif op == "quotes":
                    r = get_quotechars(t, **(dict(quote_chars=kind(chars)) if own else {}))
                else:
                    r = [x for x in sorted(set(t)) if is_potential_escapechar(x, enc, **(dict(block_char=kind(chars)) if own else {}))]
                c["r"] = sorted(C(x) for x in r)
            except Exception as x:
                c["exc"] = True
            D.emit(c, (op, t, repr(given), repr(chars), repr(bcats)) if own or owncats else None)


# ------------------------------------------------------------------ normal forms (C20)

BLOCKED_ESC = set("!?\"'.,;:%*&#")


def escapes_of(t):
    return [ord(c) for c in sorted(set(t)) if unicodedata.category(c) == "Po" and c not in BLOCKED_ESC]


ELEM = "abzAZ019._&-@+%() /"
COL = "abzAZ019._&-"


def form_text(rng, delim):
    """A text in, or nearly in, one of the normal forms."""
    k = rng.randint(1, 5)
    nl = rng.choice(["\n", "\n", "\r\n", "\r"])
    nr, nc = rng.choice([1, 2, 2, 3, 4]), rng.choice([1, 2, 2, 3, 4])
    q = rng.choice("'\"")

    def el(lo=0):
        return "".join(rng.choice(ELEM) for _ in range(rng.randint(lo, 4)))

    def quoted(lo=0):
        if rng.random() < .04:
            return q + rng.choice([q + q, "a" + q + q + "b", q + q + q + q, q + delim + q, "x" + q + delim + q + "y", q + q + delim, "b" + q + q]) + q
        s = "".join(rng.choice(ELEM + delim + delim + "\"'é\t;,|\n\r!*" + nl) for _ in range(rng.randint(lo, 4)))
        return q + s.replace(q, "") + q if rng.random() < .97 else q + s + q
    rows = []
    for _ in range(nr):
        if k == 1:
            r = delim.join(quoted() for _ in range(nc))
        elif k == 2:
            r = delim.join(el() for _ in range(nc))
        elif k == 3:
            r = delim.join(quoted(1) if rng.random() < .5 else el(1) for _ in range(nc))
        elif k == 4:
            r = "".join(rng.choice(COL) for _ in range(rng.randint(0, 4)))
            if nc > 1:
                r = q + r + rng.choice(["", " "]) + q
        else:
            r = q + delim.join(el() for _ in range(nc)) + q
        rows.append(r)
    t = nl.join(rows) + rng.choice(["", nl, nl, nl + nl, "\r\n\n", "\n\r", "\r"])
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        i = rng.randint(0, len(t))
        x = rng.choice(["'", '"', delim, "\n", "\r", "\r\n", "a", " ", ";", "\\", "é", "!", "@", "", "", "§", "~", "_", "0", "\t", q + q,
                        delim + delim, q + delim + q, q + q + delim, delim + q + q, nl + nl, q + nl + q, t[i:i + 5], t[max(0, i - 4):i]])
        if rng.random() < .1:
            t = t[:i] + t[i + rng.randint(1, 6):]
        t = t[:i] + x + t[i + rng.randint(0, 1):]
    return t


def big_size(rng, t, quick, total=None):
    """How many copies of t, and of which character in it."""
    total = total or rng.choice([5000, 20000, 70000, 140000] + ([] if quick else [1000000]))
    x = rng.choice([c for c in t if c in "ab01"] or ["a"])
    n = rng.choice([1, 2, 50, 3000, total])
    n = max(1, min(n, total // (len(t) + 1)))
    k = max(1, total // (n * (t.count(x) + 1)))
    return n, x, rng.choice([1, k]) if n > 1 else k


def c20(D):
    from clevercsv.normal_form import detect_dialect_normal
    D.rule = ("texts: exhaustive over {a, delimiter, quote, line end} and over {a, comma, both quotes, LF, CR, backslash} "
              "up to a length; texts in each form with each default or given delimiter and line end, then damaged in up to "
              "two places; the same many times over, with an odd row somewhere; non-trivial: in a normal form, or one edit away from the generated form")
    rng = D.rng

    def one(t, given=None, enc="UTF-8", n=1, x="a", k=1, bs=()):
        """The text is n copies of t with each x as k copies, or is made of blocks."""
        D.begin(dict(t=t, given=given, **(dict(copies=n, stretched=[x, k]) if n * k > 1 else dict(blocks=bs) if bs else {})))
        if bs:
            small, t = "".join(b for b, _ in bs), "".join(b * m for b, m in bs)
            nl = "\r\n" if "\r\n" in t else "\n" if "\n" in t else "\r"
        else:
            small, t = t, stretch(t, x, k) * n
        ds = [",", ";", "|", "\t"] if given is None else list(given)
        try:
            t.encode(enc)
        except UnicodeError:
            enc = "UTF-8"
        r, rows, end, exc = dict(d=0, q=0, e=0), [], "stop", False
        none = True
        try:
            kw = {} if enc == "UTF-8" else dict(encoding=enc)
            if given is not None:
                kw["delimiters"] = given if rng.random() < .7 else iter(given) if rng.random() < .5 else tuple(given)
            dia = detect_dialect_normal(t, **kw)
            none = dia is None
            if not none:
                r = dict(d=C(dia.delimiter), q=C(dia.quotechar), e=C(dia.escapechar))
                if dia.strict or dia.escapechar != "":
                    D.violation("the dialect of a normal form has an escape character or is strict", dict(t=small, dialect=repr(dia)))
                old = clevercsv.field_size_limit(1 << 30)
                try:
                    rs, end, _ = run_reader(io.StringIO(t.rstrip("\r\n"), newline=""), dia.delimiter, dia.quotechar, dia.escapechar)
                finally:
                    clevercsv.field_size_limit(old)
                if bs:           # a row for every row end
                    i = 0
                    for b, m in bs:
                        j = i + m * b.count(nl)
                        rows += [[T(c) for c in row] for row in unrepeat(rs[i:j], m)]
                        i = j
                    rows += [[T(c) for c in row] for row in rs[i:i + 9]]
                elif n * k == 1:
                    rows = [[T(c) for c in row] for row in rs]
                else:
                    rows = [[unstretch(c, x, k) for c in row] for row in unrepeat(rs, n)]
        except Exception:
            exc = True
        D.emit(dict(t=T(small), ds=[ord(c) for c in ds], esc=escapes_of(small), none=none, r=r, rows=rows, end=end, exc=exc, n=n,
                    bs=[dict(t=T(b), n=m) for b, m in bs]),
               (small, n, k, bs) if not none else None)

    def tables():
        """All small tables over cells of interest."""
        for d, q, o in ((",", '"', "'"), ("\t", "'", '"')):
            cells = ["", "a", q + q, q + "a" + q, q * 4, q + "a" + q + q + "a" + q, q + " a" + q, "a" + q, q + "a" + d + "a" + q, q + "\n" + q,
                     o + "a" + o, q + o + q, q * 3, q, q + "a" + q + "a" + q, "a b", "é"]
            for nr, nc in ((1, 2), (2, 1), (2, 2), (1, 3)):
                few = cells if nr * nc < 4 else cells[:9] + cells[10:11]
                for cs in itertools.product(few, repeat=nr * nc):
                    yield "\n".join(d.join(cs[i * nc:i * nc + nc]) for i in range(nr))

    with D.guard(600):
        for d, q in ((",", "'"), ("\t", '"')):
            for n in range(7 if D.quick else 9):
                for x in D.mine(itertools.product("a" + d + q + "\n", repeat=n)):
                    one("".join(x))
        for n in range(5 if D.quick else 7):
            for x in D.mine(itertools.product("a,'\"\n\r\\", repeat=n)):
                one("".join(x))
        for _ in range(D.n_cases(24000, 300000)):
            d = rng.choice(",;|\t")
            k = rng.random()
            given = None
            if k < .35:
                d = rng.choice([",", ";", ":", "-", " ", "a", "é", "~", "\t", "\\"])
                given = rng.sample([",", ";", "|", "\t", ":", "~"], rng.randint(0, 3))
                if d not in given and rng.random() < .9:
                    given.insert(rng.randint(0, len(given)), d)
            t = form_text(rng, d)
            one(t, given, rng.choice(ENCS) if rng.random() < .1 else "UTF-8")
        for t in D.mine(tables()):
            one(t)
        for _ in range(D.n_cases(160, 2400)):   # long texts
            d = rng.choice(",;|\t")
            t = form_text(rng, d)
            nl = "\r\n" if "\r\n" in t else "\n" if "\n" in t else "\r"
            t = t.strip("\r\n") + nl
            n, x, k = big_size(rng, t, D.quick)
            if rng.random() < .4:
                n, k = 1, rng.choice([4096, 65535, 65536, 70000, 131073])
                k = min(k, 600000 // (t.count(x) + 1))
            one(t, None, n=n, x=x, k=k)
        for i in range(D.n_cases(480, 6000)):   # an odd row among many
            d = rng.choice(",;|\t")
            t = form_text(rng, d)
            nl = "\r\n" if "\r\n" in t else "\n" if "\n" in t else "\r"
            rows = [r for r in t.split(nl) if r]
            if not rows:
                continue
            odd = rng.choice(rows) if rng.random() < .3 else rng.choice(form_text(rng, d).replace("\r", "\n").strip("\n").split("\n"))
            if rng.random() < .6:
                odd = rng.choice(rows)
                j = rng.randint(0, len(odd))
                odd = odd[:j] + rng.choice([d, "'", '"', "a", " ", "é", "!", "''", d + d, "\\"]) + odd[j + rng.randint(0, 1):]
            total = rng.choice([20, 60, 100, 105, 130, 256, 520, 1000, 1030, 5000, 10050, 20100] + ([] if D.quick and i % 30 else [70000, 110000]))
            a = rng.choice([0, 1, total // 2, total - 1, total])
            plain = nl.join(rows) + nl
            bs = [[plain, (n + len(rows) - 1) // len(rows)] for n in (a, total - a)]
            bs.insert(1, [odd + nl, rng.choice([1, 1, 2])])
            one("", None, bs=[b for b in bs if b[1]])


# ------------------------------------------------------------------ tie breaking (C22)

def tie_text(rng, d, q, e):
    parts = ["a", "b c", q + "a" + q, e + q, "x" + e + q + "y" + e + q + "z", q + e + q + q, e + d, e + e, q + q, q + "a" + q + q + "b" + q,
             q + "a" + d + "b" + q, "", "1", e, q, e + e + q, q + "x" + e + q + "y" + e + q + q, e + q + e + q, q + "\n" + q, e + "\n", e + "a",
             "x" + e + q, '"', "'", '"a"', "`", "~a~"]
    few = rng.sample(parts, rng.randint(2, 6))
    nl = rng.choice(["\n", "\n", "\r\n"])
    return nl.join(d.join(rng.choice(few) for _ in range(rng.randint(1, 3))) for _ in range(rng.randint(1, 4))) + rng.choice(["", nl])


def tied(rng, d, q, e):
    """Dialects that may be tied."""
    d2 = rng.choice([" ", "-", ";", ",", ""])
    if rng.random() < .75:
        ds = [d]
    else:
        ds = [d, d2]
    qs = ["", q, rng.choice(["'", '"', "~"])]
    es = ["", e, rng.choice([e, "/"])]
    if rng.random() < .3:
        es = [rng.choice(es)]
    if rng.random() < .15:
        qs = [rng.choice(qs)]
    pool = sorted({(a, b, c) for a in ds for b in qs for c in es if len({x for x in (a, b, c) if x}) == sum(map(bool, (a, b, c)))})
    n = min(len(pool), rng.choice([2, 2, 2, 3, 3, 4, 4, 1, 5] if rng.random() < .2 else [2, 3, 4]))
    return rng.sample(pool, n)


def c22(D):
    from clevercsv.break_ties import tie_breaker
    D.rule = ("sets of two, three, four (and one, five) dialects, mostly with the same delimiter, in every order for pairs and a "
              "random one otherwise; texts: exhaustive over {a, delimiter, quote, escape} up to a length and tables of cells with "
              "quotes and escapes; non-trivial: the tie is broken")
    rng = D.rng

    def sets(d, q, e):
        return tied(rng, d, q, e)

    def one(t, ds, n=1, x="a", k=1, bs=()):
        D.begin(dict(t=t, dialects=ds, **(dict(copies=n, stretched=[x, k]) if n * k > 1 else dict(blocks=bs) if bs else {})))
        exc, r = False, None
        big = stretch(t, x, k) * n
        if bs:
            t, big = "".join(b for b, _ in bs), "".join(b * m for b, m in bs)
        try:
            r = tie_breaker(big, [SimpleDialect(*y) for y in ds])
        except Exception:
            exc = True
        D.emit(dict(t=T(t), s=[dict(d=C(a), q=C(b), e=C(c)) for a, b, c in ds], none=r is None, exc=exc, n=n,
                    bs=[dict(t=T(b), n=m) for b, m in bs],
                    r=dias([r])[0] if r is not None else dict(d=0, q=0, e=0)), (t, ds, n, k, bs) if r is not None else None)

    with D.guard(600):
        for n in range(6 if D.quick else 8):
            for x in D.mine(itertools.product(",'\\a", repeat=n)):
                one("".join(x), sets(",", "'", "\\"))
                if n < 5:
                    ds = rng.sample([(d, q, "\\") for d in (",", " ", "-", "", ";") for q in ("", "'")], 2)
                    one("".join(x), ds)
                    one("".join(x), ds[::-1])
        for _ in range(D.n_cases(24000, 300000)):
            d, q, e = rng.choice([",", ";", " ", "-", "\t", ""]), rng.choice("'\"~"), rng.choice("\\/§")
            t = tie_text(rng, d, q, e)
            ds = sets(d, q, e)
            one(t, ds)
            if len(ds) == 2 and rng.random() < .2:
                one(t, ds[::-1])
        for _ in range(D.n_cases(240, 3000)):   # long texts
            d, q, e = rng.choice([",", ";", " ", "-", "\t", ""]), rng.choice("'\"~"), rng.choice("\\/§")
            t = tie_text(rng, d, q, e)
            if rng.random() < .7:
                t = t.strip("\r\n") + "\n"
            n, x, k = big_size(rng, t, D.quick, rng.choice([3000, 20000, 70000]))
            if t[-1:] != "\n":
                n, k = 1, max(k, 3000)
            one(t, sets(d, q, e), n, x, k)
        for i in range(D.n_cases(400, 6000)):   # what breaks the tie somewhere in a long text
            d, q, e = rng.choice([",", ";", " ", "-", "\t", ""]), rng.choice("'\"~"), rng.choice("\\/§")
            ts = [tie_text(rng, d, q, e).strip("\r\n") + rng.choice(["\n", "\n", "\r\n"]) for _ in range(3)]
            ts[0] = d.join(rng.choice(["a", "1", "b c", ""]) for _ in range(3)).strip() + "\n"
            total = rng.choice([20, 300, 1030, 5000, 10100, 20500] + ([] if D.quick and i % 20 else [70000, 110000, 150000]))
            bs = [[ts[rng.choice([0, 0, 0, 1, 2])], 1] for _ in range(rng.choice([2, 2, 3]))]
            b = rng.choice(bs[:2])
            b[1] = total // b[0].count("\n")
            one("", sets(d, q, e), bs=[b for b in bs if b[1]])
