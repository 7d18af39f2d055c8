"""Drivers for detection as a whole (C13, C14, C15, C16, C19)."""
import itertools
import json
import os
import subprocess
import sys

import clevercsv
from clevercsv.dialect import SimpleDialect

import d_types
import detlib
from d_detect import SYMS, cats, dias, form_text, messy, million, tie_text, tied
from d_parser import structured_text
from drv import T, C

HERE = os.path.dirname(os.path.abspath(__file__))


def cellish(rng):
    k = rng.randrange(12)
    if k < 3:
        return d_types.number(rng)
    if k < 6:
        return "".join(rng.choice("abcxyz AB") for _ in range(rng.randint(1, 5)))
    if k == 6:
        return rng.choice(d_types.GOODDATE)
    if k == 7:
        return rng.choice(d_types.GOODTIME)
    if k == 8:
        return ""
    if k == 9:
        return rng.choice(["N/A", "nan", "$5", "10%", "/a/b", "a@b.cd", "1.2.3.4", "http://a.bc/d", "{}", "#*!", "<>", "^"])
    return rng.choice(GENS)(rng)


GENS = d_types.GENS


def csvish(rng, maxlen):
    """A table of plausible cells in some dialect, possibly damaged."""
    d = rng.choice(",,;;\t| :-~^&")
    q = rng.choice(["", '"', '"', "'", "~", "`"])
    e = rng.choice(["", "", "", "\\", "@", "/", "§"])
    nc = rng.choice([1, 2, 2, 3, 4])
    nl = rng.choice(["\n", "\n", "\r\n", "\r"])
    rows, n = [], 0
    while n < maxlen * .8 and len(rows) < 6:
        row = []
        for _ in range(nc if rng.random() < .93 else nc + 1):
            c = cellish(rng)[:10].replace("\n", " ").replace("\r", " ")
            k = rng.random()
            if q and k < .4:
                c = q + c.replace(q, q + q if not e or k < .2 else e + q) + (d if k < .1 else "") + q
            elif e and k < .8:
                c = c.replace(d, e + d)
                if k < .5:
                    c += e + (q or d)
            row.append(c)
        r = d.join(row)
        n += len(r) + 1
        rows.append(r)
    t = nl.join(rows) + rng.choice(["", nl])
    if rng.random() < .2 and t:
        i = rng.randrange(len(t))
        t = t[:i] + rng.choice(SYMS) + t[i + 1:]
    return t[:maxlen]


def rotated(rng, maxlen):
    """Every cell in another kind of quotes, so that dialects tie."""
    d = rng.choice(",,; -|")
    qs = rng.sample(["'", '"', "~", "`", ""], rng.choice([2, 3, 3, 4]))
    v = rng.choice(["1", "1", "a", "2020-01-01", "a b", "x" + d + "y"])
    e = rng.choice(["", "", "\\"])
    rows = []
    for _ in range(rng.randint(1, 4)):
        rng.random() < .5 and rng.shuffle(qs)
        rows.append(d.join(q + (v if rng.random() < .9 else v + e + q) + q for q in qs))
    return "\n".join(rows)[:maxlen]


def text(rng, maxlen=48):
    k = rng.random()
    if k < .05:
        t = rotated(rng, maxlen)
    elif k < .45:
        t = csvish(rng, maxlen)
    elif k < .6:
        t = form_text(rng, rng.choice(",;|\t"))
    elif k < .72:
        t = tie_text(rng, rng.choice(",; "), rng.choice("'\"~"), rng.choice("\\/§"))
    elif k < .85:
        t = messy(rng, maxlen)
    else:
        t = structured_text(rng, ",", '"', "\\", 4, 3, 4)
    return t[:maxlen]


def usable(t):
    """Characters with the same category in every version of Unicode; the exact arithmetic of the specification is
    limited to 32 bits, so few different row lengths."""
    if not all(d_types.stable(c) or c in "\ue000\U0001f600" for c in t):
        return False
    rows = t.replace("\r", "\n").split("\n")
    for d in set(t):
        if len({r.count(d) for r in rows}) > 4 or t.count(d) > 24:
            return False
    return "\0" not in t


def givens(rng):
    k = rng.random()
    if k < .6:
        return None
    if k < .65:
        return []
    return rng.sample([",", ";", "|", "\t", " ", ":", "-", "~", "^"], rng.randint(1, 4))


def turning(rng):
    """Blocks of which the first ones tell little, or something else than the others."""
    k = rng.random()
    d, d2 = rng.sample([",", ";", " ", "-", "\t", ":", "|"], 2)
    q = rng.choice("'\"~`")
    e = rng.choice("\\@/§")
    if k < .5:
        def cells(d, o):
            return ["1", "a", "1" + o + "5", "a" + o + "b", "", "2020-01-01", "12:30", "*!", "-" + o, "x" + o + "*", "a b", "#", "ab" + o + "1"]

        def rows(d, o, n):
            few = rng.sample([c for c in cells(d, o) if d not in c], 3)
            return "\n".join(d.join(rng.choice(few) for _ in range(n)) for _ in range(rng.choice([1, 1, 2])))
        n = rng.choice([2, 2, 3])
        return [rows(d, d2, n), rows(d2, d, n)] + ([rows(d, d2, n)] if rng.random() < .3 else [])
    plain = d.join(rng.choice(["a", "1", "", "a b", "2020-01-01"]) for _ in range(rng.choice([1, 2, 2])))
    few = [q + "a" + q, q + "1" + q, q + "a" + d + "b" + q, e + q + "a" + e + q, q + e + q + "a" + e + q + q, e + d, e + "a", q + q, "a" + e + q, "1", "a",
           e + q, q + "2020-01-01" + q, q + "a" + e + q + "b" + q]
    odd = "\n".join(d.join(rng.choice(few) for _ in range(plain.count(d) + 1)) for _ in range(rng.choice([1, 1, 2])))
    return [plain, odd] if rng.random() < .8 else [odd, plain]


def blocks(rng, total, rows=20000):
    """Blocks [text, copies] of whole records, about so many characters in all."""
    nl = rng.choice(["\n", "\n", "\r\n", "\r"])
    if rng.random() < .15:       # short rows in a normal form, as many as possible
        d, q = rng.choice([",", ";", "|", "\t", ""]), rng.choice(["", "", "'", '"'])
        w = rng.choice([2, 2, 3]) if d else 1
        some = [nl.join(d.join(q + rng.choice(["1", "a", "ab", "0", "x1"]) + q for _ in range(w)) for _ in range(rng.choice([1, 1, 2]))) + nl for _ in range(2)]
        n = max(1, min(rows, total) // some[0].count(nl) // rng.choice([1, 1, 2]))
        return [[some[0], n]] + ([[some[1], 1]] if rng.random() < .4 else []) + ([[some[0], 1]] if rng.random() < .2 else [])
    if rng.random() < .5:
        out = [[t.replace("\n", nl) + nl, rng.choice([1, 1, 2, 3])] for t in turning(rng) if t]
        if out and all("\n" + t[0][:1] not in ("\n\n", "\n\r") for t in out):
            m = rng.choice([[0], [0], [1], [0, 1], range(len(out))])
            for b in [out[i] for i in m if i < len(out)]:
                b[1] = max(1, min(int(total * rng.choice([.2, .5, 1, 1])) // len(b[0]), rows // len(out) // b[0].count(nl)))
            return out
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.random()
        t = rotated(rng, 30) if k < .1 else csvish(rng, rng.choice([8, 14, 24])) if k < .7 else form_text(rng, ",") if k < .8 else tie_text(rng, ",", "'", "\\")[:24]
        t = nl.join(r for r in t.replace("\r", "\n").split("\n") if r)
        if t:
            out.append([t + nl, 1])
    if not out:
        out = [["a,b" + nl, 1]]
    for b in rng.sample(out, rng.randint(1, len(out))):
        b[1] = max(1, min(total // len(b[0]), rows // len(out) // b[0].count(nl)))
    if len(out) > 1 and rng.random() < .3:    # the rest at the end, or in the middle
        out.append([out[0][0], rng.choice([1, 2])])
    return out


def tail(rng, total):
    """Blocks where a few rows at the end, or in the middle, decide against very many; and the letter to put more often."""
    nl = rng.choice(["\n", "\n", "\r\n", "\r"])
    fill = rng.choice(["a", "ab", "a b", "1", "a1", "x:y", "a-b"]) if rng.random() < .8 else rng.choice(["b,a", "a;1", "\"a\"", "'a'b"])
    d = rng.choice(",;|\t~")
    row = d.join(rng.choice(["1", "ab", "x", "", "2020-01-01", "b c", "'b" + d + "b'", '"b"']) for _ in range(rng.choice([2, 3, 4])))
    n = rng.choice([100, 1500, 6000])
    few = max(3, int(n * rng.choice([.01, .02, .2, .8])))
    u = "1" if "a" not in fill and "1" in fill else "y" if fill == "x:y" else "a"
    bs = [[fill + nl, n], [row + nl, few]]
    if rng.random() < .4:
        bs.append([fill + nl, rng.choice([1, 3, n // 2])])
    k = max(1, total // sum(b.count(u) * m for b, m in bs) // 6)
    return bs, (u, 8 + 6 * min(k, 80))


def pumped(rng, t, quick):
    """The text with some letter or digit eight times in a row, and with very many instead (PumpMC)."""
    us = sorted({c for c in t if c in "abcxyzAB0123456789"})
    if not us:
        return None
    u = rng.choice(us)
    k = 8 + 6 * rng.choice([30, 100, 700] + ([] if quick else [1400, 3000]))
    while k > 14 and k * t.count(u) > 20000:
        k = 8 + 6 * ((k - 8) // 12)
    return t.replace(u, u * 8), t.replace(u, u * k)


def manychars(rng):
    """A table with hundreds of different characters."""
    d, q = rng.choice(",;\t|"), rng.choice(["'", '"', "~", "`"])
    cs = [chr(c) for c in rng.sample(range(0x4E00, 0x9FA0), rng.choice([120, 260, 400, 700]))]
    rows, i = [], 0
    while i < len(cs):
        row = []
        for _ in range(rng.choice([2, 3, 3])):
            c = "".join(cs[i:i + rng.choice([1, 5, 9])])
            i += 9
            k = rng.random()
            row.append(q + c + (d + c if k < .2 else "\n" if k < .3 else "") + q if k < .6 else c)
        rows.append(d.join(row))
    return "\n".join(rows) + rng.choice(["", "\n"])


METHODS = ["auto", "auto", "consistency", "consistency", "normal"]


def as_arg(rng, given):
    if given is None:
        return None
    k = rng.randrange(5)
    return given if k < 2 else tuple(given) if k == 2 else "".join(given) if k == 3 else (c for c in list(given))


def case(op, t, given, method, o, rank=(), end=None, bs=()):
    d = o.pop("dialect", None)
    return dict(op=op, x=d_types.X(t), cats=cats(t), ds=[-1] if given is None else [ord(c) for c in given], method=method,
                none=o["none"], r=o["r"], m=o["m"], end=end or (detlib.reading_end(t, d) if d is not None else "stop"),
                exc=o["exc"], what=o["what"], rank=list(rank), bs=[dict(x=d_types.X(b), n=n) for b, n in bs])


def c13(D):
    D.rule = ("texts of all kinds - tables, forms, ties, random characters of all categories, exhaustive short texts, long texts - "
              "with every method, skip flag and candidate delimiters; non-trivial: a dialect with delimiter or quote is found")
    rng = D.rng

    def one(t, given, method, skip):
        D.begin(dict(t=t[:2000], given=given, method=method, skip=skip))
        o = detlib.detect(t, as_arg(rng, given), method, skip)
        nt = (t, given, method) if o["r"]["d"] or o["r"]["q"] else None
        if len(t) > 400:      # the specification looks only at which characters occur
            keep = sorted(set(t))
            pr = {(a, b) for a, b in zip(t, t[1:]) if ord(a) == o["r"]["e"] and ord(b) in (o["r"]["d"], o["r"]["q"])}
            d = o.get("dialect")
            end = detlib.reading_end(t, d) if d is not None else "stop"
            D.emit(case("fit", "".join(keep) + "".join(a + b for a, b in sorted(pr)), given, method, o, end=end), nt)
            return
        D.emit(case("fit", t, given, method, o), nt)

    with D.guard(800):
        for n in range(5 if D.quick else 6):
            for x in D.mine(itertools.product("1,'\\\n~.", repeat=n)):
                one("".join(x), None if rng.random() < .8 else givens(rng), rng.choice(METHODS), rng.random() < .5)
        for _ in range(D.n_cases(14000, 140000)):
            t = text(rng, rng.choice([10, 40, 80, 150]))
            if all(d_types.stable(c) or c in "\ue000\U0001f600" for c in t) and "\0" not in t:
                one(t, givens(rng), rng.choice(METHODS), rng.random() < .5)
        for _ in range(D.n_cases(2500, 40000)):
            alpha = [chr(rng.choice([rng.randrange(1, 0x80), rng.randrange(0x80, 0x800), rng.randrange(0x800, 0xD800),
                                     rng.randrange(0xE000, 0x10000), rng.randrange(0x10000, 0x110000)]))
                     for _ in range(rng.randint(2, 8))] + list(rng.choice([",'\n", ";\"\\", "\n\r", "/\\~`"]))
            t = "".join(rng.choice(alpha) for _ in range(rng.randint(0, 40)))
            if all(d_types.stable(c) for c in t):
                one(t, None, rng.choice(METHODS), True)
        for _ in range(D.n_cases(48, 400)):
            t = "".join(csvish(rng, 60) + rng.choice(["", "\n"]) for _ in range(rng.randint(20, 60)))
            if all(d_types.stable(c) for c in t):
                one(t, givens(rng), rng.choice(METHODS), True)
        for _ in range(D.n_cases(48, 600)):
            bs = blocks(rng, rng.choice([20000, 70000, 140000] + ([] if D.quick else [1100000])))
            t = "".join(b * n for b, n in bs)
            if all(d_types.stable(c) for c in t):
                one(t, givens(rng), rng.choice(METHODS), True)
        for t in D.mine(['"' * 200, "'," * 300, "\\" * 500, "\\," * 300, "{" * 300, '{"a":' * 60, "[" * 3000 + "\n", "\r" * 100, "\r\n" * 100,
                         "," * 400, "a" * 5000, '{"a":' + "[" * 3000 + "]" * 3000 + "}\n", "9" * 5000 + ",1\n", "1e" + "9" * 500 + ",2\n2,3\n",
                         "a.b" * 400, "http://" + "a." * 200, "1." * 300, "-" * 300, "~" * 100 + "'" * 100, "\ufeffa,b\n1,2\n", "'\n" * 99,
                         '{"a":' * 1200 + "1" + "}" * 1200, " " * 2000, "x;" + '{"a":' * 20000 + "1" + "}" * 20000 + "\n1;y\n",
                         '{"a":' + "[" * 30000 + "]" * 30000 + "}\n", "a@" * 300, "a-" * 500 + "@", "/a" * 700 + "!", "(" * 900]):
            for m in ("auto", "consistency"):
                one(t, None, m, True)


def rank_of(t, given):
    from clevercsv.potential_dialects import get_dialects
    ds = get_dialects(t, delimiters=given)
    sc, _ = detlib.scores(t, ds, skip=False)
    its = list(sc.items())
    return [dict(p=detlib.rec(d), n=n) for (d, _), n in zip(its, detlib.ranks([s.Q for _, s in its]))]


def c14(D):
    D.rule = ("texts as for C13, short enough for the specification to recompute all scores exactly; every method and entry "
              "point; non-trivial: a dialect is found by the consistency measure, or by normal forms with more than one row")
    rng = D.rng

    def one(t, given, method, entry):
        D.begin(dict(t=t, given=given, method=method, entry=entry))
        if entry in ("normal", "consistency"):
            method = entry
        elif entry == "sniff":
            method = "auto"
        o = detlib.detect(t, as_arg(rng, given), method, rng.random() < .7, None, entry)
        try:
            rank = rank_of(t, given) if method != "normal" else []
        except Exception:
            rank = []
        D.emit(case("select", t, given, method, o, rank), (t, given, method) if not o["none"] and len(t) > 3 else None)

    def big(bs, given, method, entry, wide=None, pump=None):
        D.begin(dict(blocks=bs, given=given, method=method, entry=entry, wide=wide and (wide[0], len(wide[1])), pump=pump))
        t, small = "".join(b * n for b, n in bs), "".join(b for b, n in bs)
        if pump:        # a letter or digit in all blocks, and how many of it there are in place of eight
            u, k = pump
            t, small = t.replace(u, u * k), small.replace(u, u * 8)
            bs = [[b.replace(u, u * 8), n] for b, n in bs]
        if wide:
            small, t = wide
        if entry in ("normal", "consistency"):
            method = entry
        elif entry == "sniff":
            method = "auto"
        o = detlib.detect(t, as_arg(rng, given), method, rng.random() < .7, None, entry)
        try:
            rank = rank_of(t, given) if method != "normal" else []
        except Exception:
            rank = []
        d = o.get("dialect")
        end = detlib.reading_end(t, d) if d is not None else "stop"
        D.emit(case("select", small, given, method, o, rank, end, bs), (bs, given, method) if not o["none"] else None)

    entries = ["detect", "detect", "detect", "sniff", "normal", "consistency"]
    with D.guard(800):
        for n in range(4 if D.quick else 5):
            for x in D.mine(itertools.product("1a,'\\\n", repeat=n)):
                one("".join(x), None, rng.choice(METHODS), rng.choice(entries))
        for _ in range(D.n_cases(2600, 40000)):
            t = text(rng, rng.choice([12, 24, 40]))
            if usable(t):
                one(t, givens(rng), rng.choice(METHODS), rng.choice(entries))
        for _ in range(D.n_cases(480, 6000)):     # long texts
            bs = blocks(rng, rng.choice([3000, 20000, 70000, 140000] if D.quick else [20000, 140000, 400000]))
            if len(bs) and usable("".join(b for b, n in bs)):
                big(bs, givens(rng), rng.choice(METHODS), rng.choice(entries))
        for _ in range(D.n_cases(64, 1000)):     # long texts of long cells
            bs = blocks(rng, rng.choice([30000, 60000]), 8000)
            small = "".join(b for b, n in bs)
            us = [c for c in "abx105" if c in small]
            if us and len(bs) > 1 and usable(small):
                u = rng.choice(us)
                if len(small.replace(u, u * 8)) < 70:
                    size = rng.choice([150000, 300000, 1150000])
                    k = max(1, size // sum(b.count(u) * n for b, n in bs) // 6)
                    big(bs, givens(rng) or rng.choice([None, [",", ";"]]), rng.choice(METHODS), rng.choice(entries), None, (u, 8 + 6 * min(k, 60)))
        for _ in range(D.n_cases(120, 1500)):
            bs, pump = tail(rng, rng.choice([4000, 20000, 70000, 140000, 300000, 600000, 1150000, 2200000]))
            if usable("".join(b for b, n in bs)):
                big(bs, givens(rng), rng.choice(METHODS), rng.choice(entries), None, pump)
        for _ in range(D.n_cases(240, 4000)):     # long runs of a character
            t = text(rng, rng.choice([8, 12, 20]))
            w = usable(t) and pumped(rng, t, D.quick)
            if w and len(w[0]) < 70:
                big((), givens(rng), rng.choice(METHODS), rng.choice(entries), w)


def c19(D):
    D.rule = ("texts as for C14; all candidate dialects, or arbitrary dialects, scored without skipping; under small field size "
              "limits too; type scores by all entry points with several minima; non-trivial: at least two dialects and a known and an unknown cell")
    rng = D.rng
    from clevercsv.consistency import ConsistencyDetector
    from clevercsv.detect_type import type_score
    from clevercsv.potential_dialects import get_dialects

    def one(small, ds, n=1, wide=None):
        t = wide or small * n
        D.begin(dict(t=small, copies=n, dialects=len(ds)))
        exc, best, s = False, [], []
        old = clevercsv.field_size_limit()
        nt = None
        try:
            if rng.random() < .3:
                clevercsv.field_size_limit(rng.choice([0, 1, 2, 5]))
            sc, best = detlib.scores(t, ds, skip=False)
            its = list(sc.items())
            for (d, v), r in zip(its, detlib.ranks([v.Q for _, v in its])):
                s.append(dict(p=detlib.rec(d), P=million(v.P / n), T=million(v.T), Q=million(v.Q / n), n=r, ts=[],
                              t10=int(round(v.T * 1e10)) if v.T < 1e-6 else -1))
            if len(s) > 1 and any(0 < v["T"] < 1000000 for v in s):
                nt = (small, n)
            clevercsv.field_size_limit(old)
            # the type score by itself, with other minima
            for j in rng.sample(range(len(s)), min(2, len(s))):
                d = its[j][0]
                eps = rng.choice([0.0, 0.000001, 0.25, 0.5, 0.9, 1.0, 0.333333])
                vs = [(0.0, type_score(t, d)), (eps, type_score(t, d, eps=eps)), (eps, type_score(t, d, eps)),
                      (eps, ConsistencyDetector().compute_type_score(t, d, eps=eps))]
                s[j]["ts"] = [dict(m=million(a), v=million(b)) for a, b in vs]
        except Exception:
            exc = True
        finally:
            clevercsv.field_size_limit(old)
        D.emit(dict(x=d_types.X(small), s=s, best=dias(best), exc=exc, order=dias(ds), n=n), nt)

    with D.guard(800):
        for n in range(4 if D.quick else 5):
            for x in D.mine(itertools.product("1a,'\\\n*", repeat=n)):
                t = "".join(x)
                one(t, get_dialects(t))
        for _ in range(D.n_cases(2400, 40000)):
            t = text(rng, rng.choice([12, 24, 40, 60]))
            if not usable(t):
                continue
            ds = get_dialects(t)
            if rng.random() < .25:
                ds = list({SimpleDialect(rng.choice([",", ";", "", " ", "x"]), rng.choice(["", '"', "'"]), rng.choice(["", "\\", "@"]))
                           for _ in range(rng.randint(1, 5))})
            if len(ds) > 40:
                ds = rng.sample(ds, 40)
            one(t, ds)
        for i in range(D.n_cases(160, 2400)):    # long texts
            t = blocks(rng, 1)[0][0]
            ds = get_dialects(t)
            if usable(t) and len(ds) <= 40:
                one(t, ds, rng.choice([500, 5000, 30000, 30000] if D.quick and i % 16 else [5000, 30000, 200000, 1100000]) // len(t) + 1)
        for _ in range(D.n_cases(400, 6000)):    # long runs of a character
            t = text(rng, rng.choice([8, 14, 20])) if rng.random() < .6 else rng.choice(",;|").join(
                rng.choice(["1.5x!", "1", "a!", "x", "a b", "11:12", "a@b.cd", "*", "'a'", "1%"]) for _ in range(rng.randint(1, 4)))
            w = usable(t) and pumped(rng, t, D.quick)
            if w and len(w[0]) < 90:
                ds = get_dialects(w[1])
                if len(ds) <= 40:
                    one(w[0], ds, wide=w[1])


def c15(D):
    from clevercsv.consistency import ConsistencyDetector
    from clevercsv.potential_dialects import get_dialects
    D.rule = ("texts as for C14 and longer ones; for each: with and without skipping, with caches of capacity 0, 1, 3, large and "
              "unlimited, on new detectors and on detectors used for many texts before; non-trivial: a type score was left out")
    rng = D.rng
    shared = clevercsv.Detector()
    caps = [0, 1, 2, 3, 7, 50, 64, 65, 100, 127, 128, 200, 256, 300, None]
    used = [(c, s, ConsistencyDetector(skip=s, cache_capacity=c)) for c in (1, 3, 100000, None) for s in (True, False)]
    last = None
    with D.guard(800):
        for k in range(D.n_cases(2000, 30000)):
            t = text(rng, rng.choice([15, 40, 80, 150])) if rng.random() < .8 else "\n".join(csvish(rng, 40) for _ in range(4))
            if rng.random() < .15 and last:
                t = last[:len(last) // 2] + t[:40]
            last = t
            if k % 25 == 24:      # many different cells
                d, o = rng.sample(",;-|: ", 2)
                t = "\n".join(d.join(rng.choice(["%d", "a%d", "%d.5", "x" + o + "%d", "1" + o + "%d", "%d%%", "*%d", "#%d!"]) % rng.choice([i, i, i * 7 % 90, 3])
                                     for _ in range(rng.choice([1, 2, 3, 3]))) for i in range(rng.choice([30, 70, 110, 150, 250])))
            if k % 40 == 38:
                t = manychars(rng)
            if k % 40 == 37:
                t = (pumped(rng, t, D.quick) or [t])[-1]
            if k % 40 == 39:      # a long one
                last = t = "".join(b * n for b, n in blocks(rng, rng.choice([20000, 70000, 140000])))
            if "\0" in t:
                continue
            given = givens(rng)
            method = rng.choice(["auto", "consistency", "consistency"])
            D.begin(dict(t=t[:2000], given=given, method=method))
            try:
                ds = get_dialects(t, delimiters=given)
            except Exception:
                continue
            if len(ds) > 60:
                continue
            runs = [detlib.run("reference", t, given, method, False, ds),
                    detlib.run("skip", t, given, method, True, ds),
                    detlib.run("used detector", t, given, method, rng.random() < .5, ds, rng.choice(caps), shared)]
            c, s, cd = rng.choice(used)
            r = detlib.run("used consistency detector", t, given, method, s, ds, cdetector=cd)
            try:   # its own answer, too
                x = cd.detect(t, delimiters=given)
                if method == "consistency":
                    r["none"], r["r"] = x is None, detlib.rec(x) if x is not None else detlib.NOD
            except Exception as e:
                r["exc"], r["what"] = True, repr(e)
            runs.append(r)
            c = rng.choice(caps)
            cd2 = ConsistencyDetector(skip=rng.random() < .5, cache_capacity=c)
            r = detlib.run("capacity", t, given, method, True, ds, cdetector=cd2)
            x = cd2.detect(t, delimiters=given)
            if method == "consistency":
                r["none"], r["r"] = x is None, detlib.rec(x) if x is not None else detlib.NOD
            runs.append(r)
            skipped = any(v["T"] == "" for v in runs[1]["sc"])
            D.emit(dict(t=T(t[:2000]), same=False, runs=runs), t if skipped else None)


def c16(D):
    from clevercsv.break_ties import tie_breaker
    from clevercsv.potential_dialects import get_dialects
    D.rule = ("texts as for C15; for each: repeated, in processes with different string hash seeds, with the candidate dialects "
              "supplied in different orders, repeated and as other iterables, with delimiters as list, tuple, string or set; ties "
              "supplied to the tie breaker in every order; "
              "non-trivial: several candidate dialects and a dialect found")
    rng = D.rng
    jobs, mine = [], []
    with D.guard(800):
        for k in range(D.n_cases(2600, 30000)):
            t = text(rng, rng.choice([15, 40, 80])) if rng.random() < .9 else "\n".join(csvish(rng, 40) for _ in range(3))
            if k % 50 == 48:
                t = manychars(rng)
            if k % 50 == 47:
                t = (pumped(rng, t, D.quick) or [t])[-1]
            if k % 50 == 49:      # a long one
                t = "".join(b * n for b, n in blocks(rng, rng.choice([20000, 70000])))
            if "\0" in t:
                continue
            given = givens(rng)
            method = rng.choice(["auto", "consistency", "consistency"])
            skip = rng.random() < .7
            asset = given is not None and rng.random() < .6
            g = set(given) if asset else given
            D.begin(dict(t=t[:2000], given=given, method=method))
            try:
                ds = get_dialects(t, delimiters=given)
            except Exception:
                continue
            if len(ds) > 60:
                continue
            runs = [detlib.run("reference", t, g, method, skip, ds)]
            a = list(ds)
            rng.shuffle(a)
            runs.append(detlib.run("shuffled", t, g, method, skip, a))
            runs.append(detlib.run("reversed, repeated", t, g, method, skip, list(ds)[::-1] + a[:3]))
            runs.append(detlib.run("iterator" if k % 2 else "set", t, g, method, skip, iter(a) if k % 2 else set(a)))
            if given is not None and method == "consistency":
                b = list(given)
                rng.shuffle(b)
                runs.append(detlib.run("delimiters in another order", t, b + b[:1], method, skip, None))
            jobs.append(dict(t=t, given=given, set=asset, method=method, skip=skip))
            mine.append((t, runs))
        src = D.out + ".jobs"
        with open(src, "w") as f:
            json.dump(jobs, f)
        for seed in (1, 7, 42, 1000 + D.shard) if D.quick else range(1, 13):
            dst = D.out + ".runs"
            env = dict(os.environ, PYTHONHASHSEED=str(seed))
            subprocess.run([sys.executable, os.path.join(HERE, "detlib.py"), src, dst], env=env, check=True)
            with open(dst) as f:
                for (t, runs), r in zip(mine, json.load(f)):
                    runs.append(dict(r, how="process with hash seed %d" % seed))
        # the same tie, supplied in every order
        for k in range(D.n_cases(8000, 100000)):
            d, q, e = rng.choice(",; -\t"), rng.choice("'\"~"), rng.choice("\\/")
            t = tie_text(rng, d, q, e) if rng.random() < .7 else rotated(rng, 40)
            ds = tied(rng, d, q, e)
            if rng.random() < .25:
                c = rng.choice(["", "\\"])
                ds = [(d, x, c) for x in rng.sample(["'", '"', "~", "`", ""], rng.choice([2, 3, 3, 4]))]
            D.begin(dict(t=t, ds=ds))
            runs = []
            for x in rng.sample(list(itertools.permutations(ds)), 6) if len(ds) > 3 else itertools.permutations(ds):
                runs.append(dict(how="tie in another order", exc=False, hasres=True, none=True, r=detlib.NOD, m="", hassc=False, sc=[],
                                 best=[], what=""))
                try:
                    r = tie_breaker(t, [SimpleDialect(*y) for y in x])
                    runs[-1].update(none=r is None, r=detlib.NOD if r is None else detlib.rec(r))
                except Exception as ex:
                    runs[-1].update(exc=True, what=repr(ex))
            D.emit(dict(t=T(t), same=True, runs=runs), (t, ds) if not runs[0]["none"] and len(ds) > 1 else None)
        for t, runs in mine:
            D.emit(dict(t=T(t[:2000]), same=True, runs=runs), t if len(runs[0]["sc"]) > 2 and not runs[0]["none"] else None)
