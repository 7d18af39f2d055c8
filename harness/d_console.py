"""Drivers for the console application: standardize (C11, C12), detect, code, view, explore (C24)."""
import contextlib
import io
import itertools
import os
import shutil
import subprocess
import sys

import clevercsv
from clevercsv.console import build_application
from clevercsv.encoding import get_encoding

from d_detect import form_text
from d_detect2 import csvish, text as dtext
from d_files import frame_call, read_bytes
from d_parser import conf
from drv import C, S, T

NORMAL = ["a b\nc d\n", "'a','b'\n'c','d'\n", "a-b\nc-d\n", "1 2,3\n4 5,6\n", '"a","b"\n"c d","e f"\n', "a\nb\nc\n", "1\n2\n", "a b c\n"]
MAXCP = {"ascii": 127, "latin-1": 255}
NOCONF = conf("", "", "")


def run_cli(args, child=False):
    """The command line args: exit code or "exc", standard output and error."""
    if child:
        p = subprocess.run([sys.executable, "-m", "clevercsv", *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                           env=dict(os.environ, PYTHONIOENCODING="utf-8", PYTHONUTF8="1"))
        err = p.stderr.decode("utf-8", "replace")
        code = "exc" if p.returncode == 1 and "Traceback" in err else str(p.returncode)
        return code, p.stdout.decode("utf-8"), err
    out, err = io.StringIO(newline=""), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            code = str(build_application().run(list(args)))
        except SystemExit as e:
            code = str(e.code)
        except (Exception, KeyboardInterrupt) as e:
            code = "exc"
            err.write(repr(e))
    return code, out.getvalue(), err.getvalue()


def text_of(raw, enc):
    """The text of a file as reading it gives, or None."""
    try:
        return io.TextIOWrapper(io.BytesIO(raw), encoding=enc or "utf-8", newline="").read()
    except (UnicodeError, LookupError):
        return None


def bytes_of(text, enc):
    b = io.BytesIO()
    w = io.TextIOWrapper(b, encoding=enc or "utf-8", newline="")
    try:
        if text:
            w.write(text)
        w.flush()
    except UnicodeError:
        return None
    return b.getvalue()


def clean(s):
    return "".join(c for c in s if c != "\0" and not 0xD800 <= ord(c) < 0xE000)


STANDARD = ["a,b,c\r\n1,2,3\r\n4,5,6\r\n", "x\r\ny\r\n", "a,\"b,c\"\r\n1,\"2,3\"\r\n", "a,b\r\n1,2\r\n", "\r\n"]


def some_text(rng, n=80):
    k = rng.random()
    if k < .62:
        t = csvish(rng, rng.choice([20, 50, n]))
    elif k < .75:
        t = rng.choice(STANDARD)
    elif k < .82:
        t = "".join(";".join(rng.choice(["a", "b", "", "1", "22"]) for _ in range(rng.randint(0, 4))) + "\n" for _ in range(rng.randint(1, 5)))
    elif k < .88:
        t = rng.choice(["", "a", "\n", "a,b\nc", "a;b\r\nc;d\r\n", "a\n\nb\n", "\r", " ", "\"", "a b\nc d e\n"])
    else:
        t = dtext(rng, rng.choice([8, 30]))
    if rng.random() < .15:
        t += rng.choice("éßñ日Ω")
    return clean(t)


class Outside(Exception):
    """Not in the domain of the properties."""


def step_of(raw, enc, target, num, path):
    """What the specification is told of a file."""
    e = enc or get_encoding(path)
    x = text_of(raw, e)
    s = dict(x=[], undec=x is None, nodet=False, p=NOCONF, enc=1114111, re=False)
    s["e"] = e or "utf-8"
    t = target or e
    s["t"] = t or "utf-8"
    s["enc"] = MAXCP.get((t or "").lower().replace("iso-8859-1", "latin-1"), 1114111)
    if x is None:
        if num:             # detection may fail before decoding does
            raise Outside
        return s
    s["x"] = T(x)
    if "\0" in x:
        raise Outside
    s["re"] = bytes_of(x, t) == raw
    d = clevercsv.Detector().detect(x[:num] if num else x)
    s["nodet"] = d is None
    if d is not None:
        s["p"] = conf(d.delimiter, d.quotechar, d.escapechar)
    return s


NAMES = ["a.csv", "b c.csv", "naïve.csv", "d'q\".csv", "x;y.txt", "noext", "Ω日.csv", "per%cent$.csv"]
ENCS = ["utf-8", "utf-8", "utf-16", "latin-1", "utf-8-sig", "ascii"]


def c11(D):
    D.rule = ("runs of the standardize command on one to three files, also the same one twice and through links, with all combinations of options, "
              "matching and mismatching counts, encodings of source and target, in this process and as a program; non-trivial: a file is rewritten")
    import tempfile
    rng = D.rng
    # on another file system than the one for temporary files, if there is one
    tempfile.tempdir = D.work
    os.environ["TMPDIR"] = D.work
    top = tempfile.mkdtemp(prefix="cleververif-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else D.work)
    base = os.path.join(top, "std")

    def setup(names, raws, outs, outraws):
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base + "/o")
        for n, r in zip(names, raws):
            with open(os.path.join(base, n), "wb") as f:
                f.write(r)
        for n, r in zip(outs, outraws):
            if r is not None:
                with open(os.path.join(base, n), "wb") as f:
                    f.write(r)

    def listing():
        return sorted(os.path.join(d, f)[len(base):] for d, _, fs in os.walk(base) for f in fs)

    def one(child):
        n = rng.choice([1, 1, 1, 2, 2, 3])
        names = rng.sample(NAMES, n)
        encs, raws = [], []
        for _ in range(n):
            t, e = some_text(rng), rng.choice(ENCS)
            if e in MAXCP:
                t = "".join(c if ord(c) <= MAXCP[e] else "z" for c in t)
            raw = t.encode(e)
            if rng.random() < .03:
                raw += b"\xff\xfe\xff"
            encs.append(e)
            raws.append(raw)
        mode = rng.choice(["stdout", "out", "out", "inplace", "inplace", "inplace"])
        bad = rng.random() < .07
        outs, outraws = [], []
        if mode == "out" or bad and rng.random() < .5:
            k = n if not bad else rng.choice([n, n + 1, max(1, n - 1)])
            outs = ["o/" + x for x in rng.sample(NAMES, k)]
            outraws = [rng.choice([None, b"old", b"x;y\n" * 60]) for _ in outs]
        nenc = rng.choice([0, 1, n]) if not bad else rng.choice([0, 1, n, n + 1, 2])
        if nenc == 1:
            same = encs[0] if n == 1 or encs[0] != "utf-16" else "utf-8"
            given = [same] * n
        elif nenc == n:
            given = list(encs)
        elif nenc == 0:
            given = [None] * n
        else:
            given = [None] * n
        target = rng.choice([None, None, "utf-8", "utf-16", "latin-1", "ascii", "utf-8-sig"]) if rng.random() < .5 else None
        num = rng.choice([None, None, None, 5, 30, 1000, 0])
        transpose = rng.random() < .3
        setup(names, raws, outs, outraws)
        argnames = list(names)
        # the same file again, or another name of it
        again = mode == "inplace" and n < 3 and nenc in (0, 1) and not bad and rng.random() < .3
        link = rng.random() < .15 and mode != "out"
        if link:
            os.symlink(names[0], os.path.join(base, "link.csv"))
            argnames[0] = "link.csv"
        if again:
            argnames.append(rng.choice([names[0], "./" + names[0]]))
            given.append(given[0])
            encs.append(encs[0])
        self_out = mode == "out" and not bad and len(outs) == n and rng.random() < .15
        if self_out:
            j = rng.randrange(n)
            outs[j], outraws[j] = names[j], None
            # setup again: that output is not one of its own
            setup(names, raws, [o for i, o in enumerate(outs) if i != j], [r for i, r in enumerate(outraws) if i != j])
            if rng.random() < .3:
                os.symlink(names[j], os.path.join(base, "outlink.csv"))
                outs[j] = "outlink.csv"
        P = [os.path.join(base, a) for a in argnames]
        args = []
        if mode == "inplace" or bad and rng.random() < .3:
            mode = "inplace"
            args += [rng.choice(["-i", "--in-place"])]
        elif not outs:
            mode = "stdout"
        else:
            mode = "out"
        for o in outs:
            args += [rng.choice(["-o", "--output"]), os.path.join(base, o)]
        for e in ([encs[0] if nenc != 1 else given[0]] if nenc == 1 else
                  (given if nenc == len(argnames) and nenc else ["utf-8"] * nenc)):
            args += [rng.choice(["-e", "--encoding"]), e]
        if target:
            args += [rng.choice(["-E", "--target-encoding"]), target]
        if num is not None:
            args += [rng.choice(["-n", "--num-chars"]), str(num)]
        if transpose:
            args += [rng.choice(["-t", "--transpose"])]
        args = P + args if rng.random() < .5 else args + P
        D.begin(dict(args=args, raws=[r[:500] for r in raws]))
        c = dict(mode=mode, transpose=transpose, nout=len(outs), nenc=nenc, steps=[], files=[], outs=[])
        for j, p in enumerate(P):
            if again and j == len(P) - 1:
                # the file as the first pass leaves it, made in a directory of its own
                tw = base + "-twin"
                shutil.rmtree(tw, ignore_errors=True)
                os.makedirs(tw)
                tp = os.path.join(tw, "t.csv")
                with open(tp, "wb") as f:
                    f.write(raws[0])
                run_cli(["standardize", "-i"] + [x for a in args if a not in P for x in [a] if a not in ("-i", "--in-place")] + [tp])
                raw = read_bytes(tp)
                s = step_of(raw, given[j], target, num, tp)
                s["prev"], s["chain"] = 1, s["e"] == c["steps"][0]["t"]
            else:
                s = step_of(raws[j], given[j], target, num, p)
                s["prev"], s["chain"] = 0, False
            s["last"] = not (again and j == 0)
            c["steps"].append(s)
        before = listing()
        obefore = [read_bytes(os.path.join(base, o)) for o in outs]
        talk = mode != "stdout" and rng.random() < .1      # progress messages go to standard output
        code, so, se = run_cli((["-v"] if talk else []) + ["standardize"] + args, child)
        if talk:
            so, c["talk"] = "", so[-150:]
        c["code"], c["stdout"], c["err"] = code, T(so), bool(se.strip())
        for j, (p, s) in enumerate(zip(P, c["steps"])):
            raw = read_bytes(p)
            src = raws[0] if s["prev"] else raws[j]
            t = text_of(raw or b"", s["t"])
            c["files"].append(dict(same=raw == src, text=T(t) if t is not None else [-1],
                                   isout=any(os.path.realpath(os.path.join(base, o)) == os.path.realpath(p) for o in outs)))
        for j, (o, b) in enumerate(zip(outs, obefore)):
            raw = read_bytes(os.path.join(base, o))
            t = text_of(raw or b"", c["steps"][j]["t"]) if j < len(c["steps"]) else None
            c["outs"].append(dict(touched=raw != b, text=T(t) if t is not None and raw is not None else [-1]))
        known = set(before) | {"/" + o for o in outs}
        after = listing()
        c["other"] = not set(after) <= known or not set(before) <= set(after) or link and not os.path.islink(P[0])
        for s in c["steps"]:
            s.pop("e"), s.pop("t")
        c["args"] = [a.replace(base, "") for a in args]
        c["se"] = se[-150:]
        if not any(s["x"] and any(v == 0 for v in s["x"]) for s in c["steps"]):
            D.emit(c, c["args"] if code == "2" or mode == "out" and code == "0" and n > 1 else None)

    def large(size, mode, tail, shape="rows"):
        unit = rng.choice(["1,2,3\r\n", "ab,\"c,d\",e\r\n"])
        if shape == "unit":             # an end that decides about the dialect
            unit, tail = ENDS[tail]
            text = unit * (size // len(unit) + 1) + tail
        elif shape == "cells":
            n = rng.choice([4000, 9000, 17000, 33000, 66000, 131000]) + rng.randint(-5, 70)
            x = rng.choice(["x", "xy", "é", "1 ", "a,", '""'])
            wide = '"%s"' % (x * (n // len(x))) if x in ("a,", '""') or rng.random() < .3 else x * (n // len(x))
            tail = (tail[:1] + wide + "," + tail) * max(1, size // n)
            text = unit * 3 + tail + unit * rng.choice([0, 3])
        elif shape == "columns":
            text = (",".join(str(i * 7 % 1000) for i in range(size // 20)) + "\r\n") * rng.choice([1, 4]) + tail
        else:
            text = unit * (size // len(unit) + 1) + tail + unit * rng.choice([0, 3, 2000])
        enc = rng.choice([None, "utf-8", "utf-16"])
        setup(["big.csv"], [text.encode(enc or "utf-8")], [], [])
        p, o = os.path.join(base, "big.csv"), os.path.join(base, "o/out.csv")
        transpose = rng.random() < .2
        num = 1000 if shape == "cells" else None if shape == "unit" else rng.choice([None, 1000])     # (looking for types in long cells takes long)
        s = step_of(read_bytes(p), enc, None, num, p)
        buf = io.StringIO(newline="")
        rows = list(clevercsv.reader(io.StringIO(text, newline=""), clevercsv.dialect.SimpleDialect(*[chr(s["p"][k]) if s["p"][k] else "" for k in "dqe"])))
        if transpose:
            rows = [list(r) for r in itertools.zip_longest(*rows, fillvalue="")]
        clevercsv.writer(buf, "excel").writerows(rows)
        want = buf.getvalue()
        args = ["standardize", p] + (["-e", enc] if enc else []) + (["-t"] if transpose else []) + (["-n", "1000"] if num else []) + \
            ({"inplace": ["-i"], "out": ["-o", o], "stdout": []}[mode])
        D.begin(dict(args=args, text=text[:100], tail=tail))
        D.evals += 1
        D.nontrivial.add(hash(str((size, mode, tail))))
        code, so, se = run_cli(args)
        wc = "2" if mode == "inplace" and want != text else "0"
        got = so if mode == "stdout" else text_of(read_bytes(p if mode == "inplace" else o) or b"", enc)
        why = None
        if code != wc:
            why = "exit code is not " + wc
        elif got != want:
            why = "not the standardized text of a large file"
        elif mode != "inplace" and read_bytes(p) != text.encode(enc or "utf-8"):
            why = "an input file is changed"
        if why:
            D.violation(why, dict(args=args, text=text[:100], tail=tail, size=len(text), code=code, se=se[-200:]))

    with contextlib.ExitStack() as stack:
        stack.callback(shutil.rmtree, top, True)
        stack.enter_context(D.guard(850))
        for i in range(D.n_cases(4000, 50000)):
            with contextlib.suppress(Outside):
                one(False)
        # large files that are standard up to near their end
        jobs = [(size, mode, tail) for size in (8190, 66000, 140000, 270000) for mode in ("inplace", "stdout", "out")
                for tail in ("x,y,z\n", '"x",y,z\r\n', "x,y,z\r\n")]
        for size, mode, tail in D.mine(jobs):
            large(size, mode, tail)
        jobs = [(size, mode, tail, shape) for shape in ("cells", "columns") for size in (9000, 70000, 140000) for mode in ("inplace", "stdout", "out")
                for tail in ("x,y,z\n", '"x",y,z\r\n', "x,y,z\r\n")]
        for job in D.mine(jobs):
            large(*job)
        jobs = [(size, mode, tail, "unit") for size in (9000, 140000, 1 << 20) for mode in ("inplace", "stdout", "out") for tail in range(len(ENDS))]
        if D.quick:
            jobs = [j for j in jobs if j[0] != 1 << 20 or (j[2] + D.seed) % len(ENDS) < 1]
        for job in D.mine(jobs):
            large(*job)
        for i in range(3 if D.quick else 40):
            with contextlib.suppress(Outside):
                one(True)


# ---------------------------------------------------------------- C12
class Watch:
    """What can be seen of files at every event of a run."""

    def __init__(self, paths, dirs, kill=0):
        self.paths, self.dirs, self.kill = paths, dirs, kill
        self.n, self.skip = 0, {}
        self.stats = [None] * len(paths)
        self.contents = [[] for _ in paths]
        self.inodes = [None] * len(paths)
        self.rewrote = False
        self.known = None
        self.snaps = []
        self.at = []
        self.look(True)

    def names(self):
        out = []
        for d in self.dirs:
            try:
                out += [os.path.join(d, x) for x in os.listdir(d)]
            except OSError:
                pass
        return out

    def look(self, first=False):
        new, dirty = [], first
        for i, p in enumerate(self.paths):
            try:
                s = os.stat(p)
                k = (s.st_ino, s.st_size, s.st_mtime_ns)
            except OSError:
                k = None
            if k != self.stats[i]:
                raw = read_bytes(p)
                raw = b"\0missing" if raw is None else raw
                if self.contents[i] and k and self.inodes[i] == k[0] and raw != self.contents[i][self.snaps[-1]["file"][i] - 1]:
                    self.rewrote = True
                self.inodes[i] = k and k[0]
                if raw not in self.contents[i]:
                    self.contents[i].append(raw)
                new.append(self.contents[i].index(raw) + 1)
                self.stats[i] = k
                dirty = True
            else:
                new.append(self.snaps[-1]["file"][i])
        names = set(self.names())
        if self.known is None:
            self.known = names
        extra = bool(names - self.known)
        s = dict(file=new, extra=extra, st="runs")
        if dirty or extra != self.snaps[-1]["extra"]:
            if not self.snaps or s != self.snaps[-1]:
                self.snaps.append(s)
                self.at.append(self.n)

    def event(self):
        self.n += 1
        if self.kill:
            if self.n == self.kill:
                os._exit(9)
        else:
            self.look()

    SKIP = ("detect", "consistency", "potential", "abstraction", "normal_form", "break_ties", "escape", "cparser", "encoding", "argparse",
            "wilderness", "dataclasses", "re/", "/regex/", "importlib", "enum", "gettext", "textwrap")

    def trace(self, frame, ev, arg):
        c = frame.f_code
        skip = self.skip.get(c)
        if skip is None:
            f = c.co_filename
            f = f[f.rfind("clevercsv/") + 10:] if "clevercsv/" in f else f
            skip = self.skip[c] = any(x in f for x in self.SKIP)
        if skip:
            return None
        self.event()
        return self.line

    def line(self, frame, ev, arg):
        self.event()
        return self.line

    def profile(self, frame, ev, arg):
        if ev in ("c_return", "c_exception"):
            if getattr(arg, "__module__", None) == "posix" or type(getattr(arg, "__self__", None)).__module__ in ("_io", "posix"):
                self.event()

    def run(self, fn):
        sys.setprofile(self.profile)
        sys.settrace(self.trace)
        try:
            return fn()
        finally:
            sys.settrace(None)
            sys.setprofile(None)


EVENTS = ("open", "os.rename", "os.remove", "os.chmod", "os.truncate", "os.link", "os.symlink", "os.listdir", "shutil.move", "shutil.copyfile",
          "shutil.copymode", "shutil.copystat", "tempfile.mkstemp", "os.utime", "os.mkdir", "os.rmdir", "tempfile.mkdtemp")


WHAT = [OSError, KeyboardInterrupt, PermissionError, MemoryError, OSError]


def c12(D):
    import json
    import random
    import resource
    import tempfile
    D.rule = ("runs of the standardize command on one to three files in place, onto themselves, to other files and to standard output, watched at every "
              "call, line and system call; killed at the events where anything changes and next to them; made to fail by contents that cannot be read, "
              "parsed or encoded, by limits on file size, by every file operation in turn, and by interrupts between rows; non-trivial: a file changes, or a run fails or is killed")
    rng = D.rng
    other = "/dev/shm"
    base = tempfile.mkdtemp(prefix="cleververif-", dir=other if os.access(other, os.W_OK) else D.work)
    tmpdir = os.path.join(D.work, "tmp-%d" % D.shard)
    answer = os.path.join(D.work, "answer-%d" % D.shard)
    os.makedirs(tmpdir, exist_ok=True)
    data = os.path.join(base, "d")
    sub = os.path.join(data, "sub")

    def setup(sc):
        shutil.rmtree(data, ignore_errors=True)
        os.makedirs(sub)
        for x in os.listdir(tmpdir):
            os.unlink(os.path.join(tmpdir, x))
        for n, raw, mode in zip(sc["names"], sc["raws"], sc["modes"]):
            p = os.path.join(data, n)
            with open(p, "wb") as f:
                f.write(raw)
            os.chmod(p, mode)
        for ln, to in sc["links"]:
            os.symlink(to, os.path.join(data, ln))

    def files(sc):
        return [os.path.join(data, n) for n in sc["names"]]

    def child(sc, how, k=0):
        """Run in a forked process, return what it found or None when it was killed."""
        setup(sc)
        if os.path.exists(answer):
            os.unlink(answer)
        sys.stdout.flush()
        D.f.flush()
        pid = os.fork()
        if pid == 0:
            rc = 3
            try:
                signal_off()
                os.environ["TMPDIR"] = tmpdir
                tempfile.tempdir = None
                os.chdir(data)
                res = {}
                if sc["limit"]:
                    clevercsv.field_size_limit(sc["limit"])
                if how == "fsize":
                    resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
                if how == "inject":
                    seen = [0, ""]

                    def hook(ev, args):
                        if ev not in EVENTS or not seen or seen[0] < 0:
                            return
                        a = [os.fsdecode(x) for x in args if isinstance(x, (str, bytes))]
                        if not any(x.startswith((base, tmpdir)) or not x.startswith("/") and ev != "open" or x in sc["names"] for x in a):
                            return
                        seen[0] += 1
                        if seen[0] == k:
                            seen[0], seen[1] = -1, ev
                            raise WHAT[sc["id"] % 7 % len(WHAT)]("made to fail")
                    sys.addaudithook(hook)
                if how == "interrupt":
                    left = [k]

                    def counted(f):
                        def g(*a):
                            left[0] -= 1
                            if left[0] == 0:
                                raise (KeyboardInterrupt, MemoryError)[sc["id"] % 2]("made to stop")
                            return f(*a)
                        return g
                    from clevercsv.read import reader as a_reader
                    from clevercsv.write import writer as a_writer
                    a_reader.__next__ = counted(a_reader.__next__)
                    for x in ("writerow", "writerows"):
                        setattr(a_writer, x, counted(getattr(a_writer, x)))
                w = None
                if how in ("watch", "kill"):
                    w = Watch(files(sc), [data, sub, tmpdir], k if how == "kill" else 0)
                    code, so, se = w.run(lambda: run_cli(["standardize"] + sc["args"]))
                    w.look()
                else:
                    code, so, se = run_cli(["standardize"] + sc["args"])
                if how == "inject":
                    res["injected"] = seen[1]
                    res["reached"] = seen[0] < 0
                    seen.clear()
                if how == "interrupt":
                    res["reached"] = left[0] <= 0
                if how == "fsize":
                    resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
                res.update(code=code, se=se[-200:])
                if w:
                    res.update(snaps=w.snaps, at=w.at, n=w.n, rewrote=w.rewrote, contents=[[c.hex() for c in cs] for cs in w.contents])
                blob = json.dumps(res).encode()
                if how == "fsize":
                    os.write(pipe_w, blob)
                else:
                    with open(answer, "wb") as f:
                        f.write(blob)
                rc = 0
            finally:
                os._exit(rc)
        _, st = os.waitpid(pid, 0)
        if how == "kill" and os.waitstatus_to_exitcode(st) == 9:
            return dict(killed=True)
        if how == "fsize":
            return json.loads(os.read(pipe_r, 65536)) if os.waitstatus_to_exitcode(st) == 0 else None
        with open(answer) as f:
            return json.load(f)

    pipe_r, pipe_w = os.pipe()

    def signal_off():
        import signal
        signal.alarm(0)

    def case(sc, how, res, k=0):
        ps = files(sc)
        if res is None:
            D.violation("the command ends the process", dict(args=sc["args"], how=how, k=k))
            return
        if how != "watch" or res.get("killed"):
            contents = [[r] for r in sc["raws"]]
            last = []
            for i, p in enumerate(ps):
                raw = read_bytes(p)
                raw = b"\0missing" if raw is None else raw
                if raw not in contents[i]:
                    contents[i].append(raw)
                last.append(contents[i].index(raw) + 1)
            snaps = [dict(file=[1] * len(ps), extra=False, st="runs")]
            # the files were edited one after another
            for i in range(len(ps)):
                if last[i] != 1:
                    snaps.append(dict(file=[last[j] if j <= i else 1 for j in range(len(ps))], extra=False, st="runs"))
            rewrote = False
        else:
            contents = [[bytes.fromhex(c) for c in cs] for cs in res["contents"]]
            snaps, rewrote = res["snaps"], res["rewrote"]
            last = snaps[-1]["file"]
        allowed = {os.path.join(data, n) for n in sc["names"]} | {os.path.join(data, ln) for ln, _ in sc["links"]} | set(sc["outs"]) | {sub}
        extra = not {os.path.join(d, x) for d in (data, sub, tmpdir) for x in os.listdir(d)} <= allowed
        st = "killed" if res.get("killed") else "ok" if res["code"] in ("0", "2") else "fails"
        snaps = snaps + [dict(file=last, extra=extra, st=st)]
        if sc["outs"]:      # outputs are not other files
            for s in snaps[:-1]:
                s["extra"] = False
        kept = all(not os.path.islink(p) and os.path.exists(p) and os.stat(p).st_mode & 0o7777 == m for p, m in zip(ps, sc["modes"])) and \
            all(os.path.islink(os.path.join(data, ln)) and os.readlink(os.path.join(data, ln)) == to for ln, to in sc["links"])
        fs, steps = [], []
        for i, s in enumerate(sc["steps"]):
            s = dict(s)
            if sc["big"][i] is not None:
                want = sc["big"][i]
                fs.append(dict(texts=[[]] * len(contents[i]), marks=["other"] + ["new" if c == want else "other" for c in contents[i][1:]],
                               same=want == sc["raws"][i]))
                s["x"] = []
            else:
                tt = [text_of(c, s["t"]) for c in contents[i]]
                fs.append(dict(texts=[[-1] if t is None else T(t) for t in tt], marks=["?"] * len(tt), same=False))
            s.pop("e"), s.pop("t")
            steps.append(s)
        D.emit(dict(mode=sc["mode"], transpose=sc["transpose"], nout=0, nenc=0, steps=steps, edits=sc["edits"], files=fs, snaps=snaps,
                    kept=kept, rewrote=rewrote, leave=res.get("injected") == "os.remove", how=how, k=k,
                    args=[a.replace(data, "") for a in sc["args"]], code=res.get("code", ""), se=res.get("se", ""), inj=res.get("injected", "")),
               (sc["id"], how, k) if any(len(c) > 1 for c in contents) or st != "ok" else None)

    def scenario(i):
        n = rng.choice([1, 1, 1, 2, 2, 3])
        sc = dict(id=i, names=rng.sample(NAMES, n), raws=[], modes=[rng.choice([0o644, 0o600, 0o640, 0o755, 0o664, 0o444]) for _ in range(n)], links=[],
                  outs=[], transpose=rng.random() < .2, limit=0, steps=[], big=[])
        sc["mode"] = rng.choice(["inplace"] * 5 + ["self", "self", "out", "stdout"])
        enc = rng.choice([None, "utf-8", "utf-16", "latin-1"])
        target = rng.choice([None, None, None, "utf-8", "ascii", "latin-1", "utf-16"])
        num = None
        trouble = rng.choice([None, None, None, None, "decode", "encode", "nul", "limit", "nodetect"])
        at = rng.randrange(n)
        texts = []
        for j in range(n):
            big = rng.random() < .3
            if big:
                unit = rng.choice(["1;2;3\n", "ab;\"c,d\";e\r\n", "x,y,z\n"])
                t = unit * (rng.choice([30, 300, 1500, 1500, 2900]) if D.quick else rng.choice([300, 1500, 2900, 12000]))
            else:
                t = some_text(rng, 60)
            if trouble and j == at:
                pre = "a;b;c\n1;2;3\n4;5;6\n" * rng.choice([1, 1, 1, 600, 1200])
                num = 12
                if trouble == "decode":
                    t, enc = pre, "utf-8"
                elif trouble == "encode":
                    t, target, enc = pre + "日;本;x\n", "ascii", rng.choice(["utf-8", "utf-16"])
                elif trouble == "nul":
                    t = pre + "a;\0;c\n" + pre[:40]
                elif trouble == "limit":
                    t = pre + "a;" + "w" * 80 + ";c\n"
                    sc["limit"] = 60
                else:
                    t = "a;b\n" * 3 + "\"\n"
                    num = None
            texts.append((t, big))
        if enc == "latin-1":
            texts = [("".join(c if ord(c) < 256 else "z" for c in t), b) for t, b in texts]
        sc["links"] = []
        P = []
        for j, (t, big) in enumerate(texts):
            raw = t.encode(enc or "utf-8")
            if trouble == "decode" and j == at:
                raw += b"x;\xff;\xfe\n"
            sc["raws"].append(raw)
            name = sc["names"][j]
            if rng.random() < .15:
                sc["links"].append(("link%d" % j, name))
                P.append("link%d" % j)
            elif rng.random() < .1:
                sc["links"].append(("sub/ln%d" % j, "../" + name))
                P.append("sub/ln%d" % j)
            elif rng.random() < .1:
                sc["links"] += [("one%d" % j, "two%d" % j), ("two%d" % j, name)]
                P.append("one%d" % j)
            else:
                P.append(name)
        P = [os.path.join(data, p) if rng.random() < .7 else p for p in P]
        sc["edits"] = sc["mode"] in ("inplace", "self")
        args = list(P)
        if sc["mode"] == "inplace":
            args.append("-i")
        elif sc["mode"] == "self":
            for p, name in zip(P, sc["names"]):
                args += ["-o", rng.choice([p, os.path.join(data, name)])]
        elif sc["mode"] == "out":
            sc["outs"] = [os.path.join(sub, "o%d" % j) for j in range(n)]
            for o in sc["outs"]:
                args += ["-o", o]
        if enc:
            args += ["-e", enc]
        if target:
            args += ["-E", target]
        if num is not None:
            args += ["-n", str(num)]
        if sc["transpose"]:
            args.append("-t")
        sc["args"] = args
        setup(sc)
        for (t, big), raw, p in zip(texts, sc["raws"], files(sc)):
            e = enc or get_encoding(p)
            tgt = target or e or "utf-8"
            if "\0" in t or trouble == "limit" and len(t) > 80 and "w" * 70 in t or trouble == "decode" and text_of(raw, e) is None or big or len(t) > 600:
                # not for the specification to compute: what it would be, if it can be
                x, want = text_of(raw, e), b"\0never"
                d = None
                if x is not None:
                    try:
                        d = clevercsv.Detector().detect(x[:num] if num else x)
                        rows = None if d is None else list(clevercsv.reader(io.StringIO(x, newline=""), d))
                    except clevercsv.Error:
                        rows = None
                    if rows is not None and not (sc["limit"] and any(len(c) > sc["limit"] for r in rows for c in r)):
                        if sc["transpose"]:
                            rows = list(itertools.zip_longest(*rows, fillvalue=""))
                        b = io.StringIO(newline="")
                        clevercsv.writer(b, "excel").writerows(rows)
                        want = bytes_of(b.getvalue(), tgt)
                        want = b"\0never" if want is None else want
                sc["big"].append(want)
                sc["steps"].append(dict(x=[], undec=False, nodet=False, p=NOCONF, enc=1114111, re=False, e=e, t=tgt))
            else:
                sc["steps"].append(step_of(raw, enc, target, num, p))
                sc["big"].append(None)
                if sc["limit"]:
                    sc["steps"][-1]["p"] = dict(sc["steps"][-1]["p"], limit=sc["limit"])
        return sc

    def deep(sc):
        D.begin(dict(args=sc["args"], how="watch"))
        r = child(sc, "watch")
        case(sc, "watch", r)
        at = r["at"]
        points = sorted({x for a in at for x in (a - 1, a, a + 1) if x > 0} | {rng.randint(1, max(1, r["n"])) for _ in range(3)})
        if len(points) > (12 if D.quick else 60):
            points = sorted(rng.sample(points, 12 if D.quick else 60))
        for k in points:
            D.begin(dict(args=sc["args"], how="kill", k=k))
            case(sc, "kill", child(sc, "kill", k), k)
        k = 1
        while k < 60:
            D.begin(dict(args=sc["args"], how="inject", k=k))
            q = child(sc, "inject", k)
            if q is None:
                case(sc, "inject", q, k)
                break
            if not q["reached"]:
                break
            case(sc, "inject", q, k)
            k += 1
        for k in (1, 2, 3, 5, 9, 40, rng.randint(1, 200), rng.randint(1, 3000)):
            D.begin(dict(args=sc["args"], how="interrupt", k=k))
            q = child(sc, "interrupt", k)
            if q is not None and not q["reached"]:
                continue
            case(sc, "interrupt", q, k)
        sizes = {len(c) // 2 for cs in r["contents"] for c in cs}
        top = max(sizes)
        for k in {0, 1, top // 2, top - 1, min(top, 8192), 4096, rng.randint(0, top)}:
            if 0 <= k < top:
                D.begin(dict(args=sc["args"], how="fsize", k=k))
                case(sc, "fsize", child(sc, "fsize", k), k)

    try:
        with D.guard(850):
            for i in range(D.n_cases(72, 2000)):
                with contextlib.suppress(Outside):
                    sc = scenario(i)
                    deep(sc)
    finally:
        shutil.rmtree(base, ignore_errors=True)


# ---------------------------------------------------------------- C24
ODDNAMES = ["a.csv", "b c.csv", "n\udcff\udce9.csv", "naïve.csv", "d'q\".csv", "back\\slash.csv", "\\n.csv", "new\nline.csv", "tab\t.csv", "{x}.csv", "%s.csv", "Ω日.csv",
            "'''.csv", "\"\"\".csv", "trail\\", "#c.csv", "u\\u0041.csv", "\x07.csv", "\x7f.csv", "\u2028.csv", "\x85.csv", "€.csv"]


# lines, and an end with which the detected dialect is another one
ENDS = [("1,2,3\n", '"x\n'), ("1,2,3\n", '"x'), ("ab;cd\r\n", '"x\r\n'), ("ab;cd\n", "'a,b'\n"), ("a,b;c d\n", "x;y\n"), ("a,b;c d\n", "'a,b'\n")]


def c24(D):
    import code as codemod
    import json

    import pandas
    import tabview
    from clevercsv.dialect import SimpleDialect
    D.rule = ("runs of detect in its formats, code, view and explore on files with all sorts of contents and names, with and without encoding, number of "
              "characters and the other options; the printed dialect is read back and the printed program executed; non-trivial: a table of two rows, or "
              "a dialect with a quote or escape character")
    rng = D.rng
    base = os.path.join(D.work, "cli-%d" % D.shard)
    os.makedirs(base, exist_ok=True)
    os.chdir(base)
    shown, sessions = [], []
    tabview.view = lambda *a, **k: shown.append((a, k))
    codemod.InteractiveConsole.interact = lambda self, *a, **k: sessions.append(dict(self.locals))
    noload = dict(d=-1, q=-1, e=-1)

    def load(d):
        return dict(d=C(d.delimiter), q=C(d.quotechar), e=C(d.escapechar))

    def frames(fn):
        """Calls of pandas.read_csv made by fn, without making them."""
        calls = []
        real, pandas.read_csv = pandas.read_csv, lambda *a, **k: calls.append((a, k)) or "frame"
        try:
            fn()
            end = "ok"
        except Exception as e:
            end = type(e).__name__
        finally:
            pandas.read_csv = real
        out = []
        for a, k in calls:
            f, d, enc, k = frame_call(real, a, k)
            out.append(repr((os.fspath(f), sorted(k.items()), enc, d and (d.delimiter, d.quotechar, d.escapechar, d.quoting))))
        return out, end

    def one(child=False):
        t = some_text(rng)
        if rng.random() < .15:          # in a normal form, so that the method matters
            t = rng.choice(NORMAL) if rng.random() < .4 else form_text(rng, rng.choice(",;|\t"))
        big = rng.random() < .03
        if big:                         # many rows, one of another length
            d = rng.choice(",;\t|")
            r = [rng.choice(["1", "a", "22"]) + d + rng.choice(["b", '"c"', "3"]) for _ in range(3)]
            m = rng.choice([70, 130, 260]) + rng.randint(0, 9)
            t = [rng.choice(r) for _ in range(m)]
            t.insert(rng.choice([0, m // 2, m - 1, m]), rng.choice([r[0] + d + "z" + d, "q", ""]))
            t = "\n".join(t) + rng.choice(["\n", ""])
        e = rng.choice(ENCS)
        if e in MAXCP:
            t = "".join(c if ord(c) <= MAXCP[e] else "z" for c in t)
        shift = rng.random() < .08      # ASCII that is taken for something else if no encoding is given
        if shift:
            i = rng.randint(0, len(t))
            t, e = t[:i] + "\x1b$B$3$l\x1b(B" + t[i:], rng.choice([e, "ascii", "utf-8"])
            t = "".join(c if ord(c) <= MAXCP.get(e, ord(c)) else "z" for c in t)
        raw = t.encode(e)
        if rng.random() < .03:
            raw, e = raw + b"\xff\xfe\xff", "utf-8"
        name = rng.choice(ODDNAMES if not child else ODDNAMES[:13])
        path = os.path.join(base, name) if rng.random() < .5 else name
        with open(path, "wb") as f:
            f.write(raw)
        enc = rng.choice([None, e])
        num = rng.choice([None, None, None, 0, 4, 12, 30, 1000])
        op = rng.choice(["detect", "detect", "code", "code", "code", "view", "explore"]) if not child else rng.choice(["detect", "code", "code"])
        args, fmt = [], ""
        method, skip = "auto", True
        if op == "detect":
            fmt = rng.choice(["text", "plain", "json"])
            if fmt != "text":
                args.append({"plain": ["-p", "--plain"], "json": ["-j", "--json"]}[fmt][rng.randrange(2)])
            if rng.random() < .4:
                method = "consistency"
                args.append(rng.choice(["-c", "--consistency"]))
            if rng.random() < .3:
                skip = False
                args.append("--no-skip")
            runtime = rng.random() < .2
            if runtime:
                args.append("--add-runtime")
        else:
            fmt = "frame" if op != "view" and not child and rng.random() < .3 else "rows"
            if fmt == "frame":
                args.append(rng.choice(["-p", "--pandas"]))
        if big and op != "detect" and not child and rng.random() < .7:
            op = "view"
            fmt, args = "rows", []
        transpose = op == "view" and rng.random() < .5
        if transpose:
            args.append(rng.choice(["-t", "--transpose"]))
        if enc:
            args += [rng.choice(["-e", "--encoding"]), enc]
        if num is not None:
            args += [rng.choice(["-n", "--num-chars"]), str(num)]
        args = [op] + ([path] + args if rng.random() < .5 else args + [path])
        D.begin(dict(args=args, raw=raw[:1000]))
        u = enc or get_encoding(path)
        x = text_of(raw, u)
        if x is None and num or x and "\0" in x:
            return
        c = dict(op=op, fmt=fmt, transpose=transpose, x=[], undec=x is None, nodet=False, p=NOCONF, loaded=noload, ran=False, rows=[])
        c["pass"] = True
        if x is not None:
            d = clevercsv.Detector().detect(x[:num] if num else x, method=method, skip=skip)
            c["nodet"] = d is None
            c["x"] = T(x)
            if d is not None:
                c["p"] = conf(d.delimiter, d.quotechar, d.escapechar)
        del shown[:], sessions[:]
        before = None
        if rng.random() < (.3 if op == "detect" else .12) and not child and not (op == "detect" and runtime) and not (op == "explore" and fmt == "frame"):
            before = run_cli([rng.choice(["-v", "--verbose"])] + args) + ([x[0] for x in shown], [x.get("rows") for x in sessions])
            del shown[:], sessions[:]
        if op == "explore" and fmt == "frame":
            calls, end = frames(lambda: c.update(zip(("code", "out", "se"), run_cli(args))))
            code, out, err = c["code"], c["out"], c["se"]
        else:
            code, out, err = run_cli(args, child)
        c["code"], c["out"], c["err"], c["se"] = code, T(out), bool(err.strip()), err[-150:]
        rows = None
        if code == "0":
            try:
                if op == "detect":
                    lines = out.split("\n")
                    if fmt == "plain":
                        c["pass"] = not runtime and out.count("\n") >= 3 or runtime and lines[-2].startswith("runtime = ") and float(lines[-2][10:]) >= 0
                        if "\n" not in d.delimiter and not runtime:
                            c["pass"] = c["pass"] and len(lines) == 4 + d.delimiter.count("\n")
                    elif fmt == "json":
                        j = json.loads(out)
                        r = j.pop("runtime", None)
                        c["pass"] = set(j) == {"delimiter", "quotechar", "escapechar", "strict"} and (r is not None) == runtime and j["strict"] is False
                        c["loaded"] = load(SimpleDialect.from_dict(j))
                        c["pass"] = c["pass"] and SimpleDialect.from_dict(j) == d == SimpleDialect.deserialize(json.dumps(j))
                    else:
                        c["pass"] = lines[0].startswith("Detected: ") and len(lines) == (3 if runtime else 2) and \
                            (not runtime or lines[1].startswith("Runtime: ") and lines[1].endswith(" seconds"))
                        r = eval(lines[0][10:], {"SimpleDialect": SimpleDialect})
                        c["loaded"] = load(r)
                        c["pass"] = c["pass"] and r == d
                elif op == "view":
                    if len(shown) == 1 and len(shown[0][0]) == 1:
                        rows, c["ran"] = shown[0][0][0], True
                    c["pass"] = out == "" and len(shown) == 1
                else:
                    kw = {}
                    if enc:
                        kw["encoding"] = enc
                    if num:
                        kw["num_chars"] = num
                    if op == "code" and fmt == "rows" and child:
                        prog = os.path.join(base, "prog.py")
                        with open(prog, "w", encoding="utf-8") as f:
                            f.write(out + "\nimport json\nopen('rows.json','w').write(json.dumps(rows))\n")
                        if subprocess.run([sys.executable, prog], capture_output=True, timeout=120).returncode == 0:
                            with open("rows.json") as f:
                                rows, c["ran"] = json.load(f), True
                    elif op == "code" and fmt == "rows":
                        ns = {}
                        exec(compile(out, "program", "exec"), ns)
                        rows, c["ran"] = ns["rows"], True
                    elif op == "code":
                        ns = {}
                        calls, end = frames(lambda: exec(compile(out, "program", "exec"), ns))
                        c["pass"] = (calls, end) == frames(lambda: clevercsv.read_dataframe(path, **kw)) and (end != "ok" or ns.get("df") == "frame")
                    elif fmt == "rows":
                        if len(sessions) == 1 and "rows" in sessions[0]:
                            rows, c["ran"] = sessions[0]["rows"], True
                    else:
                        want, end = frames(lambda: clevercsv.read_dataframe(path, **kw))
                        c["pass"] = calls == want and (end != "ok" or len(sessions) == 1 and sessions[0].get("df") == "frame")
            except Exception as ex:
                c["pass"], c["se"] = False, repr(ex)
        if before is not None:          # progress messages come first, and that is all the difference
            if before[0] != code or bool(before[2].strip()) != bool(err.strip()) or not before[1].endswith(out) or \
                    before[3] != [x[0] for x in shown] or before[4] != [x.get("rows") for x in sessions]:
                c["pass"], c["se"] = False, "with -v: %r" % (before[:3],)
        if rows is not None:
            try:
                c["rows"] = [[[-1] if v is None else T(v) for v in r] for r in rows]
            except TypeError:
                c["ran"] = False
        c["args"] = [a.replace(base, "") for a in args]
        if op == "explore":
            c["out"] = c["out"] if c["nodet"] or c["undec"] else []
        os.unlink(path)
        D.emit(c, (c["x"], c["args"]) if len(c["rows"]) > 1 or op == "detect" and (c["p"]["q"] or c["p"]["e"]) else None)

    def whole(op, size, unit, tail):
        """Files with an end that decides about the dialect, against the table and the dialect of the text."""
        text = unit * (size // len(unit) + 1) + tail
        enc = rng.choice([None, "utf-8", "utf-16"])
        num = rng.choice([None, None, 0, len(text), len(text) - len(tail)])
        raw = text.encode(enc or "utf-8")
        with open("whole.csv", "wb") as f:
            f.write(raw)
        x = text_of(raw, enc or get_encoding("whole.csv"))
        method = rng.choice(["auto", "consistency"]) if op == "detect" else "auto"
        transpose = op == "view" and rng.random() < .3
        args = [op, "whole.csv"] + (["-e", enc] if enc else []) + (["-n", str(num)] if num is not None else []) + \
            (["-c"] if method != "auto" else []) + (["-j"] if op == "detect" else []) + (["-t"] if transpose else [])
        D.begin(dict(args=args, text=text[:40], tail=tail, size=len(text)))
        if x is None:
            return
        d = clevercsv.Detector().detect(x[:num] if num else x, method=method)
        if d is None:
            return
        D.evals += 1
        D.nontrivial.add(hash(str((op, size, unit, tail))))
        want = list(clevercsv.reader(io.StringIO(x, newline=""), d))
        if transpose:
            want = [list(r) for r in itertools.zip_longest(*want, fillvalue="")]
        del shown[:], sessions[:]
        code, out, err = run_cli(args)
        got = None
        try:
            if op == "detect":
                got, want = SimpleDialect.from_dict(json.loads(out)), d
            elif op == "view":
                got = [["" if v is None else v for v in r] for r in shown[0][0][0]]
            elif op == "code":
                ns = {}
                exec(compile(out, "program", "exec"), ns)
                got = ns["rows"]
            else:
                got = sessions[0]["rows"]
        except Exception as ex:
            err += repr(ex)
        if code != "0" or got != want:
            D.violation("%s: not the dialect or the table of a file whose end decides about the dialect" % op,
                        dict(args=args, unit=unit, tail=tail, size=len(text), code=code, se=err[-200:], want=str(want)[-200:], got=str(got)[-200:]))

    try:
        with D.guard(850):
            for i in range(D.n_cases(6000, 80000)):
                one()
            for i in range(3 if D.quick else 40):
                one(True)
            jobs = [(op, size, unit, tail) for size in (8192, 66000, 270000, 1 << 20) for op in ("detect", "view", "code", "explore") for unit, tail in ENDS]
            if D.quick:
                jobs = [j for i, j in enumerate(jobs) if j[1] != 1 << 20 or (i + D.seed) % len(ENDS) == 0]
            for job in D.mine(jobs):
                whole(*job)
    finally:
        os.chdir(D.work)
        shutil.rmtree(base, ignore_errors=True)
