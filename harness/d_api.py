"""Driver for histories of library calls (C06)."""
import copy
import csv
import io
import json
import locale
import os
import random
import sys
import traceback
import warnings

import clevercsv
from clevercsv.dialect import SimpleDialect

LIMITS = [3, 9, 40, 131072]      # index 1..4; the last is the default
DEFAULT = 4

TEXTS = ["a,b,c\n1,2,3\n4,5,6\n",
         "name;'some text';x\nJohn;'a;b';3\nJane;'c\nd';4\n",
         "long cell of text|1\nanother cell of text, longer|2\nthird one|3\n",
         "a,b\n\"unterminated cell with quite a few characters, one\n",
         "x\\,y,z\n1\\,2,3\n,\n",
         "2020-01-01\t12:00\t$5\n2020-02-01\t13:00\t$6\n",
         "'a', 'b'\n'c', 'd'\n~a~, 'e'\n",
         "",
         "@",
         "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa,b\nccc,ddd\n",
         "http://a.bc/d,1\nhttp://e.fg/h,2\n",
         "a b-c d\ne f-g h\n",
         "x\u2042,y,\ufe68'z'\n1\U00011047,2,'3'\n"]


class csvdia(csv.Dialect):
    delimiter = ";"
    quotechar = "'"
    escapechar = None
    doublequote = True
    skipinitialspace = False
    lineterminator = "\r\n"
    quoting = csv.QUOTE_MINIMAL
    strict = False


def show(x):
    """The value of a result or argument, as text."""
    if isinstance(x, SimpleDialect):
        return "SD(%r,%r,%r,%r)" % (x.delimiter, x.quotechar, x.escapechar, x.strict)
    if isinstance(x, type) and issubclass(x, csv.Dialect) or isinstance(x, csv.Dialect):
        return "D" + repr([getattr(x, k, None) for k in ("delimiter", "quotechar", "escapechar", "doublequote", "skipinitialspace",
                                                         "lineterminator", "quoting", "strict")])
    if isinstance(x, dict):
        return type(x).__name__ + "{" + ",".join(show(k) + ":" + show(v) for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return type(x).__name__ + "(" + ",".join(map(show, x)) + ")"
    if isinstance(x, (set, frozenset)):
        return "set(" + ",".join(sorted(map(show, x))) + ")"
    if isinstance(x, io.StringIO):
        return "S" + repr(x.getvalue())
    if x is None or isinstance(x, (str, bytes, int, float, bool)):
        return repr(x)
    if hasattr(x, "_fields"):
        return show(tuple(x))
    if type(x).__module__.startswith("clevercsv"):
        d = getattr(x, "__dict__", None)
        return type(x).__name__ + (show(d) if d else "")
    return type(x).__name__


def spoil(x):
    """What a caller may do with what he got."""
    try:
        if isinstance(x, list):
            x.append("spoilt")
        elif isinstance(x, dict):
            x["spoilt"] = 1
        elif isinstance(x, SimpleDialect):
            x.delimiter, x.quotechar = "S", "P"
        elif isinstance(x, set):
            x.add("spoilt")
    except Exception:
        pass


# A line source in which threads may be switched as in the library itself.
SOURCE = {}
exec(compile("""def lines(text, step):
    for line in text.splitlines(True):
        step(line)
        yield line
        step(line)
""", os.path.join(os.path.dirname(clevercsv.__file__), "<lines>"), "exec"), SOURCE)
QUOTED = ["'first\nsecond\nthird';x\na;'b\n\nc';'d\n'\n", "||\n^|^\nx|'y|\nz'\n'unterminated\n|\n"]


class Fails(Exception):
    pass


def file_with(D, text, enc="utf-8", name="in.csv"):
    p = os.path.join(D.work, "api%d" % os.getpid())
    os.makedirs(p, exist_ok=True)
    f = os.path.join(p, name)
    with open(f, "w", newline="", encoding=enc) as h:
        h.write(text)
    return f


def calls(D):
    """The catalogue: (name, make arguments, do).  do gets the arguments made; they must be left alone."""
    from clevercsv import wrappers
    from clevercsv.break_ties import tie_breaker
    from clevercsv.consistency import ConsistencyDetector, detect_dialect_consistency
    from clevercsv.cparser_util import parse_data, parse_string
    from clevercsv.detect_pattern import make_abstraction, pattern_score
    from clevercsv.detect_type import TypeDetector, type_score
    from clevercsv.normal_form import detect_dialect_normal
    from clevercsv.potential_dialects import get_delimiters, get_dialects
    out = []

    def add(name, mk, do):
        out.append((name, mk, do))

    def sd(i):
        return [SimpleDialect(",", '"', ""), SimpleDialect(";", "'", ""), SimpleDialect("|", "", ""), SimpleDialect(",", "", "\\"),
                SimpleDialect(None, None, None), SimpleDialect("", "", "")][i]
    det = clevercsv.Detector
    for i, t in enumerate(TEXTS):
        add("detect %d" % i, lambda t=t: [t], lambda a: det().detect(a[0]))
    for i in (0, 1, 3, 5, 6, 9):
        t = TEXTS[i]
        add("detect consistency %d" % i, lambda t=t: [t, [";", ",", "|"]], lambda a: det().detect(a[0], delimiters=a[1], method="consistency"))
        add("has_header %d" % i, lambda t=t: [t], lambda a: det().has_header(a[0]))
    add("detect, delimiters", lambda: [TEXTS[0], [",", ";"]], lambda a: det().detect(a[0], delimiters=a[1]))
    add("detect, set", lambda: [TEXTS[1], {",", ";"}], lambda a: det().sniff(a[0], delimiters=a[1]))
    add("detect normal", lambda: [TEXTS[0], [";"]], lambda a: detect_dialect_normal(a[0], delimiters=a[1]))
    add("detect, no skip", lambda: [TEXTS[6]], lambda a: det().detect(a[0], skip=False, method="consistency"))
    add("detect, bad method", lambda: [TEXTS[0]], lambda a: det().detect(a[0], method="bogus"))
    add("detect, not a text", lambda: [None], lambda a: det().detect(a[0]))
    add("detect, bytes", lambda: [b"a,b\n"], lambda a: det().detect(a[0]))
    add("has_header, none", lambda: ["@"], lambda a: det().has_header(a[0]))
    add("dialects", lambda: [TEXTS[6], [",", "'"]], lambda a: [get_dialects(a[0]), get_dialects(a[0], delimiters=a[1])])
    add("delimiters", lambda: [TEXTS[10], ["A", "B"], ["Lu", "Ll"], ["x"]],
        lambda a: sorted(get_delimiters(a[0], "utf-8", block_cat=a[2], block_char=a[3])))
    for i in (0, 1, 2, 3, 9):
        for j in (0, 1, 2):
            add("type score %d %d" % (i, j), lambda i=i, j=j: [TEXTS[i], sd(j)], lambda a: type_score(a[0], a[1]))
    for i in (1, 4):
        add("pattern score %d" % i, lambda i=i: [TEXTS[i], sd(1)], lambda a: [pattern_score(a[0], a[1]), make_abstraction(a[0], a[1])])
    add("dialects, rare", lambda: [TEXTS[12]], lambda a: get_dialects(a[0]))
    for i in (1, 2, 6):
        def cs(a):
            c = ConsistencyDetector(skip=False)
            s = c.compute_consistency_scores(a[0], a[1])
            return [sorted((show(k), repr(v)) for k, v in s.items()), sorted(map(show, c.get_best_dialects(s)))]
        add("scores %d" % i, lambda i=i: [TEXTS[i], [sd(2), sd(1), sd(0), sd(3)]], cs)
    add("ties", lambda: [TEXTS[1], [sd(1), SimpleDialect(";", "", "")]], lambda a: tie_breaker(a[0], a[1]))
    add("ties four", lambda: [TEXTS[1], [sd(3), sd(2), sd(1), sd(0)]], lambda a: tie_breaker(a[0], a[1]))
    add("types", lambda: [["1", "a@b.cd", "2020-01-01", "#*!", "", "{}"]],
        lambda a: [[TypeDetector().detect_type(c), TypeDetector().is_known_type(c, is_quoted=True)] for c in a[0]])
    for i in (0, 1, 2, 3, 9):
        j = (0, 1, 2, 0, 0)[(0, 1, 2, 3, 9).index(i)]
        add("parse_data %d" % i, lambda i=i, j=j: [TEXTS[i].splitlines(True), sd(j)],
            lambda a: list(parse_data(a[0], dialect=a[1], return_quoted=True)))
        add("parse_string %d" % i, lambda i=i, j=j: [TEXTS[i], sd(j)], lambda a: list(parse_string(a[0], a[1])))
        add("reader %d" % i, lambda i=i, j=j: [TEXTS[i].splitlines(True), sd(j)],
            lambda a: list(clevercsv.reader(a[0], a[1], quotechar="'", strict=True)))
    for i in (0, 1):
        add("reader, generator %d" % i, lambda i=i: [QUOTED[i], SimpleDialect(";|"[i], "'", ["", "^"][i])],
            lambda a: list(clevercsv.reader(SOURCE["lines"](a[0], len), a[1])))

    def inner(a):       # reading while another record is being read
        got = []
        rows = list(parse_data(SOURCE["lines"](a[0], lambda l: got.append(list(clevercsv.reader([l + "'"], a[1])))), a[1], return_quoted=True))
        return [rows, got]
    add("parse_data, nested", lambda: [QUOTED[0], sd(1)], inner)
    add("parse_data, options", lambda: [["a;b\n"], sd(0)], lambda a: list(parse_data(a[0], dialect=a[1], delimiter=";", quotechar="b")))
    add("parse_data, limit", lambda: [[TEXTS[9]], sd(0)], lambda a: list(parse_data(a[0], dialect=a[1], field_limit=20)))
    add("reader, csv class", lambda: [["a;'b'\n"], csvdia], lambda a: list(clevercsv.reader(a[0], a[1], delimiter="b")))
    add("reader, csv instance", lambda: [["a;'b'\n"], csvdia()], lambda a: list(clevercsv.reader(a[0], a[1])))
    add("reader, name", lambda: [["a\tb\n"], "excel-tab"], lambda a: list(clevercsv.reader(a[0], a[1])))
    add("reader, bad delimiter", lambda: [["a;b\n"], sd(0)], lambda a: list(clevercsv.reader(a[0], a[1], delimiter="xx")))
    add("reader, bad dialect", lambda: [["a;b\n"], 3], lambda a: list(clevercsv.reader(a[0], a[1])))
    add("reader, not text", lambda: [["a;b\n", 3], sd(1)], lambda a: list(clevercsv.reader(a[0], a[1])))
    add("reader, NUL", lambda: [["a;b\n", "c\0d\n"], sd(1)], lambda a: list(clevercsv.reader(a[0], a[1])))

    def wr(a, **kw):
        f = io.StringIO()
        try:
            w = clevercsv.writer(f, a[0], **kw)
            w.writerows(a[1])
        except Exception as e:
            return [f.getvalue(), type(e).__name__]
        return f.getvalue()
    rows = [["a", "b;c", 'd"e'], ["", "x\ny", 1.5], ["'", None, 3]]
    for i in range(5):
        add("writer %d" % i, lambda i=i: [sd(i), copy.deepcopy(rows)], wr)
    add("writer, class", lambda: [csvdia, copy.deepcopy(rows)], lambda a: wr(a, quoting=csv.QUOTE_ALL, delimiter="|"))
    add("writer, instance", lambda: [csvdia(), [tuple(r) for r in rows]], lambda a: wr(a, lineterminator="\n"))
    add("writer, bad", lambda: [sd(1), [["a"], 3, ["b"]]], wr)

    def dw(a):
        f = io.StringIO()
        r = []
        w = clevercsv.DictWriter(f, a[0], restval="-", dialect=a[2])
        for x in [None] + a[1]:
            try:
                w.writeheader() if x is None else w.writerow(x)
            except Exception as e:
                r.append(type(e).__name__)
        try:
            w.writerows(a[1])
        except Exception as e:
            r.append(type(e).__name__)
        return r + [f.getvalue()]
    add("DictWriter", lambda: [["a", "b", "c"], [dict(a=1, b="x;y"), dict(c=3, z=4), dict(c="'", a=None)], sd(1)], dw)

    def dr(a, **kw):
        r = clevercsv.DictReader(a[0], a[1], dialect=a[2], **kw)
        return list(r) + [r.fieldnames, r.line_num]
    add("DictReader", lambda: [TEXTS[1].splitlines(True), None, sd(1)], dr)
    add("DictReader, names", lambda: [TEXTS[2].splitlines(True), ["k", "k", "m"], sd(2)], lambda a: dr(a, restkey="r", restval="v"))
    add("DictReader, short", lambda: [TEXTS[0].splitlines(True), ["k"], "excel"], dr)
    add("dialect values", lambda: [sd(1), sd(0), csvdia()],
        lambda a: [a[0].serialize(), a[0].to_dict(), a[0].to_csv_dialect(), SimpleDialect.from_dict(a[1].to_dict()), hash(a[0]) == hash(a[1]),
                   SimpleDialect.from_csv_dialect(a[2]), SimpleDialect.deserialize(a[0].serialize()), sorted([a[0], a[1]])])
    for i in (0, 1, 2, 8):
        add("read_table %d" % i, lambda i=i: [TEXTS[i], None], lambda a: clevercsv.read_table(file_with(D, a[0]), dialect=a[1]))
        add("read_dicts %d" % i, lambda i=i: [TEXTS[i]], lambda a: clevercsv.read_dicts(file_with(D, a[0]), num_chars=30))
    add("read_table, given", lambda: [TEXTS[1], sd(1)], lambda a: clevercsv.read_table(file_with(D, a[0]), dialect=a[1]))
    add("stream_table, given", lambda: [TEXTS[2], csvdia], lambda a: list(clevercsv.stream_table(file_with(D, a[0]), dialect=a[1])))
    add("stream_dicts", lambda: [TEXTS[1]], lambda a: list(clevercsv.stream_dicts(file_with(D, a[0]))))
    add("read_table, missing", lambda: ["/nonexistent/file"], lambda a: clevercsv.read_table(a[0]))
    add("read_table, bad encoding", lambda: [TEXTS[1]], lambda a: clevercsv.read_table(file_with(D, a[0] + "\xe9", "latin1"), encoding="utf-8"))
    add("detect_dialect", lambda: [TEXTS[6]], lambda a: clevercsv.detect_dialect(file_with(D, a[0]), num_chars=20, method="consistency"))

    def content(p):
        with open(p, newline="") as f:
            return f.read()

    def wt(a, **kw):
        p = file_with(D, "old", name="out.csv")
        try:
            clevercsv.write_table(a[0], p, dialect=a[1], **kw)
        except Exception as e:
            return [type(e).__name__, content(p)]
        return content(p)
    add("write_table", lambda: [[["a", "b"], ["c;", "d"]], sd(1)], wt)
    add("write_table, transposed", lambda: [[["a", "b"], ["c;", "d"]], "excel"], lambda a: wt(a, transpose=True))
    add("write_table, ragged", lambda: [[["a", "b"], ["c"]], sd(1)], wt)

    def wd(a):
        p = file_with(D, "old", name="out.csv")
        try:
            wrappers.write_dicts(a[0], p, dialect=a[1])
        except Exception as e:
            return [type(e).__name__, content(p)]
        return content(p)
    add("write_dicts", lambda: [[dict(a=1, b=2), dict(b="x", a=None)], sd(0)], wd)
    add("write_dicts, extra", lambda: [[dict(a=1, b=2), dict(c="x", a=None)], sd(0)], wd)
    return out


def kinds(D):
    """Objects used step by step: (name, make arguments, steps).  The first steps yield nothing but exist.  iter() begins the
    first FIRSTBEGIN ones."""
    from clevercsv.consistency import ConsistencyDetector
    from clevercsv.cparser_util import parse_data
    from clevercsv.detect_type import TypeDetector
    out = []

    def it(f):     # a step = next
        def make(a):
            o = f(a)
            return o, lambda n: next(o)
        return make
    sd = SimpleDialect
    for i, d in ((0, sd(",", '"', "")), (2, sd("|", "", "")), (9, sd(",", "", "")), (3, sd(",", '"', ""))):
        out.append(("reader %d" % i, lambda i=i, d=d: [TEXTS[i].splitlines(True), d], it(lambda a: clevercsv.reader(a[0], a[1]))))
    first = len(out)
    out.append(("parse_data", lambda: [TEXTS[2].splitlines(True), sd("|", "", "")], it(lambda a: parse_data(a[0], a[1]))))
    out.append(("DictReader", lambda: [TEXTS[2].splitlines(True), None, sd("|", "", "")],
                it(lambda a: clevercsv.DictReader(a[0], a[1], dialect=a[2], restkey="r"))))
    out.append(("DictReader, names", lambda: [TEXTS[9].splitlines(True), ["a", "b", "c"], sd(",", "", "")],
                it(lambda a: clevercsv.DictReader(a[0], a[1], dialect=a[2], restval="v"))))
    out.append(("stream_table", lambda: [TEXTS[2], sd("|", "", "")],
                it(lambda a: clevercsv.stream_table(file_with(D, a[0], name="st.csv"), dialect=a[1]))))
    out.append(("stream_dicts", lambda: [TEXTS[1]], it(lambda a: clevercsv.stream_dicts(file_with(D, a[0], name="sd.csv")))))

    def wri(a):
        f = io.StringIO()
        w = clevercsv.writer(f, a[0])

        def step(n):
            f.seek(0)
            f.truncate()
            try:
                w.writerow(a[1][n % len(a[1])]) if n % 4 else w.writerows(a[1])
            except Exception as e:
                return [type(e).__name__, f.getvalue()]
            return f.getvalue()
        return w, step
    out.append(("writer", lambda: [sd(";", "'", ""), [["a", "b;c"], ["'", 1], [None, ""]]], wri))
    out.append(("writer, failing", lambda: [sd(";", "", ""), [["a", "b;c"], ["'", 1], [None, "x"]]], wri))

    def dwr(a):
        f = io.StringIO()
        w = clevercsv.DictWriter(f, a[0], dialect="excel")

        def step(n):
            f.seek(0)
            f.truncate()
            try:
                w.writerow(a[1][n % 3]) if n else w.writeheader()
            except Exception as e:
                return [type(e).__name__, f.getvalue()]
            return f.getvalue()
        return w, step
    out.append(("DictWriter", lambda: [["x", "y"], [dict(x=1), dict(y=2, z=3), dict(x='"', y=",")]], dwr))

    def detr(a):
        d = clevercsv.Detector()
        return d, lambda n: [d.detect(a[0][n % len(a[0])], method=("auto", "consistency")[n // 3 % 2]), str(d.method_)]
    out.append(("Detector", lambda: [list(TEXTS)], detr))

    def cdet(a):
        d = ConsistencyDetector(skip=True, cache_capacity=2)
        return d, lambda n: d.detect(a[0][n % len(a[0])])
    out.append(("ConsistencyDetector", lambda: [list(TEXTS)], cdet))

    def tdet(a):
        d = TypeDetector()
        return d, lambda n: [d.detect_type(a[0][n % len(a[0])], is_quoted=bool(n % 2)), d.is_known_type(a[0][n % len(a[0])])]
    out.append(("TypeDetector", lambda: [["1", "a", "#*!", "2020-01-01", "", "{}", "a@b.cd", "x, y"]], tdet))
    return out, first


BAD = [lambda f: f("5"), lambda f: f(1.5), lambda f: f(None), lambda f: f(1, 2), lambda f: f([3]), lambda f: f(limit="x"),
       lambda f: f("x"), lambda f: f(2 ** 63), lambda f: f(-10 ** 30), lambda f: f(1, 2, 3), lambda f: f(9, limit=3)]


def glob():
    return (csv.field_size_limit(), tuple(csv.list_dialects()), sys.getrecursionlimit(), len(warnings.filters), os.getcwd(),
            locale.setlocale(locale.LC_ALL), hash(random.getstate()), tuple(sorted(os.environ.items())), id(sys.stdout), id(sys.stderr),
            sys.get_int_max_str_digits(), show(csv.get_dialect("excel")), show(clevercsv.excel), show(csvdia))


class World:
    """The library in this process."""

    def __init__(self, D, files=True):
        self.D = D
        self.calls = [c for c in calls(D) if files or not c[0].startswith(("read_", "stream_", "write_", "detect_dialect"))]
        ks, self.first = kinds(D)
        self.kinds = [k for k in ks if files or not k[0].startswith("stream_")]
        self.reset()

    def reset(self):
        self.objs = []
        clevercsv.field_size_limit(LIMITS[DEFAULT - 1])

    def names(self):
        return [c[0] for c in self.calls] + ["object: " + k[0] for k in self.kinds]

    def run(self, f):
        """(result as text, result)"""
        try:
            r = f()
        except Exception as e:
            return "!" + type(e).__name__, None
        return show(r), r

    def do(self, op, a, objs=None):
        """(what is returned: limit index, 1, or text; arguments left alone)"""
        objs = self.objs if objs is None else objs
        fl = clevercsv.field_size_limit
        ix = {v: i + 1 for i, v in enumerate(LIMITS)}
        if op == "set":
            return ix.get(fl(LIMITS[a - 1]), -1), True
        if op == "get":
            return ix.get(fl(), -1), True
        if op == "bad":
            try:
                BAD[a - 1](fl)
            except (TypeError, OverflowError):
                return 1, True
            except Exception:
                pass
            return 0, True
        if op == "call":
            name, mk, do = self.calls[a - 1]
            args = mk()
            before = show(args)
            s, r = self.run(lambda: do(args))
            ok = show(args) == before
            spoil(r)
            if isinstance(r, list):
                for x in r:
                    spoil(x)
            return s, ok
        if op == "new":
            name, mk, make = self.kinds[a - len(self.calls) - 1]
            args = mk()
            before = show(args)
            s, r = self.run(lambda: make(args))
            objs.append([r, args, before, 0])
            return "!" if r is None else "made", show(args) == before
        o = objs[a - 1]
        if op == "begin":
            try:
                return int(iter(o[0][0]) is not None), show(o[1]) == o[2]
            except Exception:
                return 0, True
        if op == "ask":
            n = o[3]
            o[3] += 1
            s, r = self.run(lambda: o[0][1](n))
            ok = show(o[1]) == o[2]
            spoil(r)
            return s, ok
        raise ValueError(op)


STEPS = 9


def reference(D, W):
    """ref[k][g][n] in a process of its own each."""
    ref = []
    for k in range(1, len(W.calls) + len(W.kinds) + 1):
        per = []
        for g in range(1, len(LIMITS) + 1):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    clevercsv.field_size_limit(LIMITS[g - 1])
                    if k <= len(W.calls):
                        res = ["", W.do("call", k)[0]]
                    else:
                        res = [W.do("new", k)[0]] + [W.do("ask", 1)[0] for _ in range(STEPS)]
                    with os.fdopen(w, "w") as f:
                        json.dump(res, f)
                except BaseException:
                    traceback.print_exc()
                os._exit(0)
            os.close(w)
            with os.fdopen(r) as f:
                per.append(json.loads(f.read() or "[]"))
            os.waitpid(pid, 0)
        ref.append(per)
    return ref


def catalogue(D, files=True):
    warnings.simplefilter("ignore")
    W = World(D, files)
    return W, reference(D, W)


def check_sizes(W, module):
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", module + ".cfg")) as f:
        sizes = {a.strip(): b for a, b in (line.split(" = ") for line in f.read().splitlines() if " = " in line)}
    have = dict(NCalls=len(W.calls), NKinds=len(W.kinds), FirstBegin=W.first)
    assert all(sizes.get(k, str(v)) == str(v) for k, v in have.items()), (have, sizes)


def c06(D):
    D.rule = ("histories of %s calls from a catalogue covering readers, writers, dict readers and writers, detection, header detection, scores, "
              "tie breaking, dialects and file functions, with failing calls, changes of the limit and rejected ones, long cells; each result compared "
              "with the same call in a process of its own under the same limit; non-trivial: all" % ("25" if D.quick else "60"))
    W, ref = catalogue(D)
    ids = {}

    def num(s):
        return ids.setdefault(s, len(ids) + 1)
    nref = [[[num(x) for x in per] for per in k] for k in ref]
    nc, nk = len(W.calls), len(W.kinds)
    rng = D.rng
    with D.guard(800):
        for h in range(D.n_cases(800, 8000)):
            W.reset()
            ev = []
            touched = {}

            def record(op, a):
                before = glob()
                D.begin(dict(history=[[e["op"], e["a"], e["name"]] for e in ev], op=op, a=a))
                r, ok = W.do(op, a)
                l = clevercsv.field_size_limit()
                l = LIMITS.index(l) + 1 if l in LIMITS else -1
                if isinstance(r, str):
                    r = num(r)
                name = W.names()[a - 1] if op in ("call", "new") else ""
                ev.append(dict(op=op, a=a, r=r, l=l, args=ok, glob=glob() == before, name=name))
            for _ in range(25 if D.quick else 60):
                w = rng.randrange(20)
                no = len(W.objs)
                if w < 4:
                    record("set", rng.randint(1, len(LIMITS)))
                elif w == 4:
                    record("bad", rng.randint(1, len(BAD)))
                elif w == 5:
                    record("get", 0)
                elif w < 13:
                    record("call", rng.randint(1, nc))
                elif w < 15 or not no:
                    record("new", nc + rng.randint(1, nk))
                    touched[len(W.objs)] = ev[-1]["a"]
                else:
                    o = rng.randint(1, no)
                    if w == 15 and touched[o] <= nc + W.first:
                        record("begin", o)
                    else:
                        record("ask", o)
            used = sorted({e["a"] for e in ev if e["op"] in ("call", "new")})
            # only the part of the table that is needed; the others empty
            part = [nref[k] if k + 1 in used else [] for k in range(nc + nk)]
            D.emit(dict(ref=part, ev=ev), json.dumps([[e["op"], e["a"]] for e in ev]))


def c06_replay(D):
    D.rule = "histories generated from ApiHistSim, replayed call by call; non-trivial: all"
    W, ref = catalogue(D)
    check_sizes(W, "ApiHistSim")
    with D.guard(800):
        for beh in D.input():
            W.reset()
            D.begin(beh)
            D.evals += 1
            D.nontrivial.add(hash(json.dumps(beh)))
            for j, e in enumerate(beh):
                before = glob()
                r, ok = W.do(e["op"], e["a"])
                q = e["r"]
                if e["op"] in ("set", "get"):
                    want = q["g"]
                elif e["op"] in ("bad", "begin"):
                    want = 1
                else:
                    steps = ref[q["k"] - 1][q["g"] - 1]
                    want = steps[q["n"]] if q["n"] < len(steps) else r
                why = ("a result is not the one of the specification" if r != want else
                       "a call changes its arguments" if not ok else
                       "a call changes global state" if glob() != before else
                       "a call changes the field size limit" if clevercsv.field_size_limit() != LIMITS[e["l"] - 1] else None)
                if why:
                    D.violation(why, dict(history=[[x["op"], x["a"], W.names()[x["a"] - 1] if x["op"] in ("call", "new") else ""] for x in beh[:j + 1]],
                                          got=r, want=want))
                    break
