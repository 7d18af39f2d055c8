"""Driver for header detection (C23)."""
import itertools

import clevercsv
from clevercsv.exceptions import NoDetectionResult

import d_types
import detlib
from d_detect2 import csvish, text
from drv import T, stretch

NUMS = ["1", "12", "-3", "+4", " 5 ", "0", "007", "1_0", "1__0", "_1", "1_", "1.5", ".5", "5.", "1e5", "1E-3", "1e", "1.5e+2", "-.5", ".", "1_0.5_0",
        "1._5", "1_.5", "inf", "-Infinity", "NaN", "nan1", "infin", "1j", "j", "-J", "+j", "1+2j", "1-j", "1.5e3+.5e-1j", "(1+2j)", "( 3 )", "(j )", "(1",
        "1 + 2j", "1+2", "1j+2", "nanj", "inf-nanj", "1+-2j", "0x10", "1,5", "٣", "٣.٣", "３", "²", "½", "1 2", "\u20031", "1\u00a0", "\x1c1",
        "1\x1f", "\u200b1", "- 1", "--1", "+-1", "1l", "1.e1", "e5", "1e5.0", "1e5_0", "1e_5", "10" * 12, "9" * 40, "(1))", "((1))", "()", "( )",
        "True", "None", "1/2", "1%", "$1"]
WORDS = ["", "a", "b", "ab", "abc", "name", "x y", "éa", "ß", "id", "Nr.", "12a", "a1", "ab ", " ab", "A B C", "-", "é", "日", "日月", "\U0001d7d9"]


def num(rng):
    k = rng.randrange(8)
    d = lambda a, b: "".join(rng.choice("0123456789") for _ in range(rng.randint(a, b)))
    if k < 2:
        return rng.choice(["", "-", "+"]) + d(1, 4)
    if k < 4:
        return rng.choice(["", "-"]) + d(0, 2) + "." + d(0, 2) + rng.choice(["", "", "e" + d(0, 2)])
    if k == 4:
        return "".join(rng.choice("0123_.eEjJ+-() infa") for _ in range(rng.randint(1, 6)))
    return rng.choice(NUMS)


def column(rng):
    """A header cell and a generator for the cells below."""
    k = rng.randrange(7)
    h = rng.choice([lambda: rng.choice(WORDS), lambda: num(rng), lambda: rng.choice(WORDS)])()
    if k == 0:
        n = rng.randint(0, 4)
        return h, lambda: "".join(rng.choice("abcxyz") for _ in range(n))
    if k == 1:
        return h, lambda: str(rng.randint(-20, 2000))
    if k == 2:
        return h, lambda: "%.2f" % rng.uniform(-5, 50)
    if k == 3:
        return h, lambda: rng.choice(["1j", "2+3j", "-j", "1.5+2j"])
    if k == 4:
        return h, lambda: num(rng)
    if k == 5:
        return h, lambda: rng.choice(WORDS)
    a = rng.choice([num, lambda r: r.choice(WORDS)])(rng)
    return h, lambda: a if rng.random() < .9 else rng.choice(WORDS)


def sample(rng):
    d = rng.choice([",", ",", ";", "\t", "|", " "])
    q = rng.choice(["", '"', '"', "'"])
    cols = [column(rng) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 19, 20, 21, 22, 24]) if rng.random() < .6 else rng.randint(0, 5)

    def cell(c):
        c = c.replace("\n", " ").replace("\r", " ")
        if q and (d in c or rng.random() < .2):
            return q + c.replace(q, q + q) + q
        return c
    rows = [[cell(c[0]) for c in cols]]
    flaw = rng.random() < .35
    odd = rng.randrange(25) if rng.random() < .4 else -1
    for i in range(n):
        r = [cell(c[1]()) for c in cols]
        if i == odd:
            r[rng.randrange(len(r))] = cell(rng.choice(WORDS + NUMS))
        if flaw and rng.random() < .2:
            r = r[:-1] if rng.random() < .5 else r + [cell(rng.choice(WORDS))]
        rows.append(r)
    return "\n".join(d.join(r) for r in rows) + rng.choice(["", "\n", "\n"])


def outcome(t, kw):
    try:
        r = clevercsv.Detector().has_header(t, **kw)
        return "yes" if r is True else "no" if r is False else "other error"
    except NoDetectionResult:
        return "none"
    except Exception as e:
        return "other error"


def c23(D):
    D.rule = ("tables with typed, textual and irregular columns around the row limit, long and wide tables, long cells, header cells that fit or not, exhaustive small "
              "samples, random texts; each with LF, CRLF and CR; non-trivial: rows below the header and a dialect found")
    rng = D.rng

    def one(t, mx=20, x="x", k=1, more=""):
        """With every x as k copies; then more of the sample, beyond the rows that take part."""
        t = t.replace("\r\n", "\n").replace("\r", "\n")
        if "\0" in t or not all(d_types.stable(c) for c in t):
            return
        D.begin(dict(t=t[:3000], max=mx, stretched=[x, k], more=len(more)))
        vs = []
        for nl in ("\n", "\r\n", "\r") if "\n" in t else ("\n",):
            u = t.replace("\n", nl)
            v = stretch(u, x, k) + more.replace("\n", nl)
            o = detlib.detect(v)
            if o["exc"]:
                return    # the business of C13
            vs.append(dict(t=T(u), none=o["none"], r=o["r"], out=outcome(v, {} if mx == 20 and rng.random() < .5 else dict(max_rows_to_check=mx))))
        D.emit(dict(x=d_types.X("".join(sorted(set(t)))), max=mx, s=vs, w=dict(u=ord(x), k=k), more=more != ""),
               (t, mx, k, more[-9:]) if not vs[0]["none"] and t.count("\n") > 1 else None)

    with D.guard(800):
        for c in D.mine(NUMS + WORDS):
            if not set(c) & set(",\n"):
                for h in ("1", "1.5", "1j", "x" * len(c), "é"):
                    one("%s,1\n%s,2\n" % (h, c))
                    one("%s,a\n%s,bb\n%s,ccc\n" % (c, h, h))
        for n in range(1, 4 if D.quick else 5):
            for p in D.mine(itertools.product(["a", "1", "2.", ",", "\n"], repeat=n + 2)):
                one("".join(p))
        for _ in range(D.n_cases(2600, 40000)):
            one(sample(rng), 20 if rng.random() < .7 else rng.randint(0, 6))
        for _ in range(D.n_cases(240, 3000)):       # long cells
            t = sample(rng) if rng.random() < .3 else "\n".join(",".join(rng.choice(["x", "xb", "a", "1x", "1", "x1", "1.5", "xx", "12", ""]) for _ in range(w))
                                                               for w in [rng.choice([1, 2])] for _ in range(rng.randint(2, 5)))
            x = rng.choice("xxxb1")
            k = rng.choice([2, 31, 50, 99, 100, 101, 128, 255, 256, 257, 400, 1000] + ([] if D.quick else [1900]))
            if max(len(r) for r in t.split("\n")) * (k if x == "1" else 1) < 4000:     # int() takes no more digits than that
                one(t, rng.choice([20, 3]), x, k)
        for _ in range(D.n_cases(160, 2000)):     # what decides the dialect is far down
            mx = rng.choice([20, 20, 3, 0])
            d, d2 = rng.sample(",;|\t", 2)
            few = [rng.choice([["1", "2.5", "30"], ["ab", "cd"], ["ab", "c", "defg"], ["1j", "2"], [""]]) for _ in range(3)]
            def row(c):
                return c[0] + d + c[1] + d2 + c[2] if rng.random() < .9 else rng.choice(c)
            rows = [row([rng.choice(["name", "x", "12", "1.5", "ab"]) for _ in few])]
            rows += [row([rng.choice(f) for f in few]) for _ in range(mx + rng.choice([4, 9, 30]))]
            e = rng.choice([d, d2])
            fill = rng.choice([rng.choice(rows), "a b", e.join(rng.choice(f) for f in few)]) + "\n"
            last = e.join(rng.choice(["1", "x", "2.5"]) for _ in range(rng.choice([2, 3, 5]))) + "\n"
            total = rng.choice([100, 600, 1200, 5000, 12000, 20000, 70000, 140000] + [1100000] * (not D.quick))
            one("\n".join(rows) + "\n", mx, more=fill * (total // len(fill)) + last * rng.choice([0, len(rows) // 2, 60, 300]))
        for _ in range(D.n_cases(64, 800)):       # long rows, of which a late one decides
            n = rng.choice([20, 21, 22, 23])
            h, f, o = rng.choice([("xx", "x", "xx"), ("x", "x", "xxb"), ("name", "x1", "xx"), ("xb", "xb", "b"), ("1", "11", "x"), ("x", "11", "1.5")])
            g = rng.choice([["1", "2"], ["1", "2", "ab"], ["1", "2", "ab"], ["z", "2"]])
            rows = [h + "," + g[0]] + [f + "," + g[1 + i % (len(g) - 1)] for i in range(n)]
            rows[rng.choice([n - 2, n - 1, n, n // 2])] = o + ",2"
            one("\n".join(rows) + "\n", 20, "x" if "x" in f else "1", rng.choice([300, 800, 1500] if "x" in f else [30, 90]))
        for _ in range(D.n_cases(64, 800)):       # long and wide tables
            n, w = rng.choice([(21, 1), (22, 2), (40, 2), (70, 1), (120, 1), (130, 2), (260, 1), (4, 40), (3, 70)])
            cell = rng.choice([lambda i: str(i), lambda i: "ab", lambda i: str(i % 10), lambda i: "%d.5" % i])
            rows = [[cell(i + j) for j in range(w)] for i in range(n)]
            rows[0] = [rng.choice(["name", "ab", "1", "x%d" % j]) for j in range(w)]
            for _ in range(rng.choice([0, 1, 1])):
                rows[rng.choice([n - 1, n - 1, n - 2, n // 2, 1])][rng.choice([0, w - 1])] = rng.choice(["abc", "1", "q", "1j"])
            if rng.random() < .3:
                rows.insert(rng.choice([n, n // 2]), ["1"] * (w + 1))
            one("\n".join(map(",".join, rows)) + "\n", rng.choice([20, n - 3, n - 2, n - 1, n, 1000, 100]))
        for _ in range(D.n_cases(500, 8000)):
            one(text(rng, 60) if rng.random() < .6 else csvish(rng, 80))
        for _ in range(D.n_cases(400, 6000)):
            a = num(rng)
            one("%s,%s\n%s,%s\n" % (num(rng), rng.choice(WORDS), a, num(rng)))
