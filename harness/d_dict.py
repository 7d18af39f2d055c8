"""Drivers for DictReader and DictWriter (C07, C08)."""
import io
import json
import types
import warnings
from collections import ChainMap, OrderedDict, defaultdict

import clevercsv
from clevercsv.dialect import SimpleDialect

from drv import T, C, S, ch, outcome, rows_of
from d_parser import Counting, conf, rand_dialect, split, structured_text, well_typed
from d_writer import Form, nonzero_dialect, rand_cell, NL


def tag(x):
    if x is None:
        return dict(t="n", s=[], l=[])
    if type(x) is str:
        return dict(t="s", s=T(x), l=[])
    if type(x) is list and all(type(y) is str for y in x):
        return dict(t="l", s=[], l=[T(y) for y in x])
    return dict(t="?", s=T(repr(x)), l=[])


def untag(x):
    return None if x["t"] == "n" else S(x["s"]) if x["t"] == "s" else [S(y) for y in x["l"]]


def pairs(d):
    return [dict(k=tag(k), v=tag(v)) for k, v in d.items()]


def do_reader(dr, a, names=None, lines=True):
    e = dict(a=a, k="", d=[], n=[], ln=-1)
    if a == "set":
        dr.fieldnames = list(names)
        e.update(k="names", n=[tag(x) for x in names])
        return e
    if a == "ask":
        k, v = outcome(lambda: dr.fieldnames, clevercsv.Error)
        if k == "row":
            e.update(k="none") if v is None else e.update(k="names", n=[tag(x) for x in v])
        else:
            e["k"] = k
    else:
        k, v = outcome(lambda: next(dr), clevercsv.Error)
        if k == "row":
            e.update(k="dict", d=pairs(v))
        else:
            e["k"] = k
    if e["k"] in ("dict", "names") and lines:
        e["ln"] = dr.line_num
    return e


KEYS = ["a", "b", "c", "", "a", "é", "long name", "x,y", "1"]


def c07(D):
    D.rule = ("random CSV-like texts (ragged and empty records included) with given, absent or repeated field names, "
              "rest keys and values (None, texts, names that collide with fields), dialect given or by parameters; "
              "histories mixing next, the fieldnames property and assignments to it; non-trivial: at least one "
              "dictionary that was padded, has surplus cells or duplicate names")
    rng = D.rng
    with D.guard(600):
        for i in range(D.n_cases(24000, 250000)):
            d, q, e = nonzero_dialect(rng) if rng.random() < .5 else (",", '"', "")
            k = rng.random()
            wide = i % 40 == 0
            if wide:
                m = rng.choice([8, 12, 30, 70, 140, 140, 300] + [1100] * (i % 400 == 0))
                t = "".join(d.join(rng.choice(["a", "b", "", "c", "é", "%d" % j]) for j in range(max(0, m + rng.choice([0, 0, 0, 1, -1, -5, 20])))) + "\n"
                            for _ in range(rng.randint(1, 4)))
            elif i % 40 == 1:
                t = "".join(d.join(rng.choice(["a", "b", "", "c"]) for _ in range(rng.choice([0, 2, 3, 3]))) + "\n" for _ in range(rng.randint(100, 300)))
            elif k < .6:
                nl = rng.choice(["\n", "\n", "\r\n"])
                t = "".join(d.join(rng.choice(["a", "b", "", "c", "é", "1"]) for _ in range(rng.randint(0, 4))) + nl
                            for _ in range(rng.randint(0, 6)))
            else:
                t = structured_text(rng, d, q, e)
            lines = split(t)
            given = None
            if rng.random() < .45:
                given = [rng.choice(KEYS) for _ in range(rng.randint(0, 4))]
                if wide:
                    given = [rng.choice(KEYS) if rng.random() < .03 else "k%d" % j for j in range(rng.choice([5, m, m, m + 1]))]
                elif rng.random() < .1:
                    given = tuple(given)
            rk = rng.choice([None, None, "rest", "a"])
            rv = rng.choice([None, None, "", "pad"])
            src = rng.choice([lambda: lines, lambda: io.StringIO(t, newline=""), lambda: Counting(lines), lambda: iter(lines)])()
            strict = rng.random() < .1
            D.begin(dict(d=d, q=q, e=e, text=t, given=given))
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                if rng.random() < .5:
                    dr = clevercsv.DictReader(src, given, rk, rv, SimpleDialect(d, q, e, strict=strict))
                else:
                    dr = clevercsv.DictReader(src, fieldnames=given, restkey=rk, restval=rv, dialect="excel",
                                              delimiter=d, quotechar=q, escapechar=e, strict=strict)
                if rng.random() < .5:
                    dr = iter(dr)
                ev = []
                mode = rng.random()
                while len(ev) < (400 if i % 40 == 1 else 40):
                    x = rng.random()
                    if mode < .5 and x < .3:
                        ev.append(do_reader(dr, "ask"))
                    elif mode > .9 and x < .1:
                        ev.append(do_reader(dr, "set", [rng.choice(KEYS) for _ in range(rng.randint(0, 4))]))
                    else:
                        ev.append(do_reader(dr, "next"))
                    if ev[-1]["k"] in ("stop", "err", "exc"):
                        break
                warned = any(issubclass(x.category, UserWarning) for x in w)
            p = conf(d, q, e, strict)
            odd = any(x["k"] == "dict" and (any(y["v"]["t"] != "s" for y in x["d"])) for x in ev) or warned
            D.emit(dict(c=dict(p=p, l=[T(x) for x in lines], rk=tag(rk), rv=tag(rv)),
                        given=[] if given is None else [[tag(x) for x in given]], warned=warned, ev=ev),
                   (t, given, rk, rv, [x["a"] for x in ev]) if odd else None)


def c07_replay(D):
    D.rule = "behaviours of DictRWSim (accesses to the field names in any order) replayed; non-trivial: all"
    with D.guard(600):
        for b in D.input():
            D.begin(b)
            c = b["c"]
            given = [untag(x) for x in b["given"][0]] if b["given"] else None
            D.evals += 1
            D.nontrivial.add(hash(json.dumps(b)))
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                dr = clevercsv.DictReader([S(x) for x in c["l"]], given, untag(c["rk"]), untag(c["rv"]),
                                          SimpleDialect(ch(c["p"]["d"]), ch(c["p"]["q"]), ch(c["p"]["e"])))
                for j, e in enumerate(b["log"]):
                    r = do_reader(dr, e["a"])
                    o = e["o"]
                    if r["k"] != o["k"] or r["k"] == "dict" and r["d"] != o["d"] or r["k"] == "names" and r["n"] != o["n"]:
                        D.violation("a behaviour of the specification is not a behaviour of the code",
                                    dict(lines=c["l"], given=given, step=j, want=o, got=r))
                        break


class Missing(dict):
    def __missing__(self, k):
        return "missing"


def mapping(rng, x):
    """The dictionary as another kind of mapping."""
    k = rng.randrange(12)
    return (x if k < 7 else OrderedDict(x) if k == 7 else defaultdict(lambda: "missing", x) if k == 8 else types.MappingProxyType(x) if k == 9
            else Missing(x) if k == 10 else ChainMap(x))


def c08(D):
    D.rule = ("histories of header and row writes, singly and in batches (lists and iterators), with random field "
              "names (up to 64; reassigned in between in some), dictionaries of all kinds, missing and unknown keys, both policies, cells full of special characters, values that are not texts (None, 0, False), all dialect forms; "
              "read back by the specification, the reader and DictReader; non-trivial: a key is missing or unknown")
    rng = D.rng
    with D.guard(600):
        for i in range(D.n_cases(20000, 200000)):
            d, q, e = nonzero_dialect(rng) if rng.random() < .6 else (",", '"', "")
            f = Form(rng.choice(Form.KINDS), d, q, e)
            names = []
            for _ in range(rng.randint(0 if rng.random() < .1 else 1, 4) if i % 50 else rng.choice([9, 20, 64])):
                n = rng.choice(KEYS + ["k%d" % len(names), rand_cell(rng, d, q, e, 3)])
                if n not in names or rng.random() < .02:
                    names.append(n)
            given = [T(x) for x in names]
            rv = rng.choice(["", "", "pad", d + "x"])
            action = rng.choice(["raise", "raise", "ignore", "default", "RAISE", "Ignore"])
            ops = []
            # a value that is present is never replaced, empty as it may look; values other than texts are written
            # as str() would, which has no special characters in the dialects below
            plain = not set(d + q + e) & set("FalseNo0.5-1()'")

            def rand_dict():
                x = {}
                ks = list(names)
                rng.shuffle(ks)
                for n in ks:
                    if rng.random() < .85:
                        x[n] = rand_cell(rng, d, q, e)
                        if plain and rng.random() < .2:
                            x[n] = rng.choice([None, None, 0, False, 0.5, -1, ()])
                if rng.random() < .15:
                    x[rng.choice(["unknown", "zz", d])] = rand_cell(rng, d, q, e)
                return x
            odd = False
            D.begin(dict(d=d, q=q, e=e, names=names))
            buf = io.StringIO(newline="")
            exc = False
            back, bd, hasb, first = [], [], False, False
            try:
                a, par = f.args(True)
                kw = {} if action == "default" else dict(extrasaction=action)
                if rng.random() < .5:
                    w = clevercsv.DictWriter(buf, list(names) if rng.random() < .9 or len(set(names)) < len(names) else dict.fromkeys(names), restval=rv, dialect=a, **kw, **par)
                else:
                    w = clevercsv.DictWriter(buf, tuple(names), rv, kw.get("extrasaction", "raise"), a, **par)
                many, renames = i % 100 == 0, rng.random() < .15
                for j in range(60 if many else rng.randint(0, 5)):
                    x = rng.random()
                    if renames and x < .25:         # other field names from now on
                        names = list(dict.fromkeys(rng.choice(names + KEYS) for _ in range(rng.randint(0, 4))))
                        w.fieldnames = list(names) if x < .2 else tuple(names)
                        ops.append(dict(a="names", ds=[], ns=[T(n) for n in names], k="ok"))
                        continue
                    if (j == 0 and x < .5) or x < .03:
                        op, ds, call = "header", [], lambda: w.writeheader()
                    elif x < .75:
                        ds = [rand_dict()]
                        arg = mapping(rng, ds[0])
                        op, call = "rows", lambda: w.writerow(arg)
                    else:
                        ds = [rand_dict() for _ in range(rng.randint(0, 3))]
                        op = "rows"
                        args = [mapping(rng, x) for x in ds]
                        call = rng.choice([lambda: w.writerows(args), lambda: w.writerows(iter(args)), lambda: w.writerows(tuple(args))])
                    try:
                        call()
                        k = "ok"
                    except clevercsv.Error:
                        k = "err"
                    except ValueError:
                        k = "value"
                    except Exception:
                        k = "exc"
                    odd = odd or any(set(x) != set(names) for x in ds)
                    if op == "header" and not ops and k == "ok":
                        first = True
                    ops.append(dict(a=op, ds=[[dict(k=T(k), v=T('' if v is None else str(v))) for k, v in x.items()] for x in ds], ns=[], k=k))
                text = buf.getvalue()
                back, end, v = rows_of(clevercsv.reader(io.StringIO(text, newline=""), SimpleDialect(d, q, e)), clevercsv.Error)
                if names and len(set(names)) == len(names) and not renames:
                    hasb = True
                    bd, end, v = rows_of(clevercsv.DictReader(io.StringIO(text, newline=""), None if first else names,
                                                              dialect=SimpleDialect(d, q, e)), clevercsv.Error)
                    bd = [pairs(x) for x in bd]
            except Exception as ex:
                text = buf.getvalue()
                ops.append(dict(a="rows", ds=[], ns=[], k="exc"))
            D.emit(dict(p=conf(d, q, e), w=dict(d=C(d), q=C(q), e=C(e), nl=[10], all=False), names=given,
                        rv=T(rv), **{"raise": action.lower() != "ignore"}, ops=ops, t=T(text),
                        b=[[T(x) for x in r] for r in back], hasb=hasb, bd=bd, first=first),
                   (names, ops) if odd else None)
            f.close()
