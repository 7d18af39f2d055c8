"""Support for drivers: they call the real code and record what it did."""
import contextlib
import io
import json
import os
import random
import re
import signal


def T(s):
    """Text as code points; a text that does not equal the text of its code points shows as what is no text."""
    if s is None:
        return None
    t = list(map(ord, s))
    return t if s == "".join(map(chr, t)) else t + [1114112]


def C(s):
    """A dialect component: one code point, or 0."""
    return ord(s) if s else 0


def S(cps):
    return "".join(map(chr, cps))


def ch(c):
    return chr(c) if c else ""


def stretch(t, x, k):
    """Every x in the text becomes k copies (Scale.tla)."""
    return t.replace(x, x * k)


def unstretch(s, x, k):
    """The code points of s with every k copies of x as one; runs that are no multiple of k show as what is no text."""
    out = []
    for part in re.split("(%s+)" % re.escape(x), s):
        if part and part == x * len(part):
            out += [ord(x)] * (len(part) // k) + [1114112] * (len(part) % k > 0)
        else:
            out += map(ord, part)
    return out


def unrepeat(rows, n):
    """One n-th of a list that consists of n equal parts; else it is marked."""
    m, r = divmod(len(rows), n)
    if not r and all(rows[i * m:(i + 1) * m] == rows[:m] for i in range(n)):
        return rows[:m]
    return rows[:m] + [["\U0010ffff" * 3]]


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


class Driver:
    def __init__(self):
        e = os.environ
        self.shard, self.nshards = int(e["DRV_SHARD"]), int(e["DRV_NSHARDS"])
        self.seed, self.tier = int(e["DRV_SEED"]), e["DRV_TIER"]
        self.quick = self.tier == "quick"
        self.out = e["DRV_OUT"]
        self.work = e["DRV_WORK"]
        self.rng = random.Random("%d/%d" % (self.seed, self.shard))
        self.f = open(self.out, "w")
        self.pf = os.open(self.out + ".progress", os.O_RDWR | os.O_CREAT)
        self.n = 0
        self.evals = 0
        self.nontrivial = set()
        self.samples = []
        self.rule = ""
        self.violations = []
        self.fixed = {}
        signal.signal(signal.SIGALRM, _alarm)

    def n_cases(self, quick, thorough=None):
        """Number of cases of this shard out of a total."""
        tot = quick if self.quick else (thorough or quick * 10)
        return tot // self.nshards + (1 if self.shard < tot % self.nshards else 0)

    def mine(self, it):
        """This shard's part of an enumeration."""
        for i, x in enumerate(it):
            if i % self.nshards == self.shard:
                yield x

    def input(self):
        with open(os.environ["DRV_IN"]) as f:
            return json.load(f)

    def begin(self, case):
        """Note the case about to be executed (read after a crash)."""
        b = json.dumps(case, default=str).encode()[:60000] + b"\0"
        os.pwrite(self.pf, b, 0)

    def progress(self):
        """The case noted last."""
        try:
            return json.loads(os.pread(self.pf, 60000, 0).split(b"\0", 1)[0])
        except ValueError:
            return None

    @contextlib.contextmanager
    def guard(self, seconds=60):
        signal.alarm(seconds)
        try:
            yield
        finally:
            signal.alarm(0)

    def emit(self, case, nontrivial=None):
        self.f.write(json.dumps(case) + "\n")
        self.n += 1
        self.evals += 1
        if nontrivial is not None:
            h = hash(json.dumps(nontrivial, default=str))
            self.nontrivial.add(h)
        if len(self.samples) < 2 and nontrivial is not None and self.n > 3:
            s = json.dumps(case)
            if len(s) < 1500:
                self.samples.append(case)

    def violation(self, clause, case):
        if len(self.violations) < 50:
            self.violations.append(dict(clause=clause, case=case))

    def close(self):
        self.f.close()
        with open(self.out + ".stats", "w") as f:
            json.dump(dict(cases=self.n, evaluations=self.evals, nontrivial=len(self.nontrivial),
                           rule=self.rule, samples=self.samples, violations=self.violations), f)


ERRCLASS = [("larger than field limit", "limit"), ("expected after", "strict"),
            ("new-line character", "newline"), ("NULL byte", "null"),
            ("unexpected end of data", "eof"), ("should return strings", "nottext")]


def outcome(fn, err, d=None):
    """Call fn(); its result as ("row"|"stop"|"err"|"exc", value)."""
    try:
        return "row", fn()
    except StopIteration:
        return "stop", None
    except Hang:
        return "exc", "Hang"
    except Exception as e:
        if type(e) is err:
            return "err", str(e)
        return "exc", type(e).__name__ + ": " + str(e)


def rows_of(gen, err):
    """All rows, and how the iteration ended."""
    rows = []
    it = iter(gen)
    while True:
        k, v = outcome(lambda: next(it), err)
        if k == "row":
            rows.append(v)
        else:
            return rows, k, v
