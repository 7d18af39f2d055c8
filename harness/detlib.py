"""Detection, observed.  Also run as a program, on a list of texts, in a process of its own."""
import io
import json
import sys

import contextlib
import threading
import zlib

import clevercsv
from clevercsv.dialect import SimpleDialect


def talking(*x):
    """Whether to ask for progress messages, which must not matter: for one text in six."""
    return zlib.crc32(repr(x).encode()) % 6 == 0 and threading.active_count() == 1


def rec(d):
    return dict(d=ord(d.delimiter) if d.delimiter else 0, q=ord(d.quotechar) if d.quotechar else 0,
                e=ord(d.escapechar) if d.escapechar else 0)


NOD = dict(d=0, q=0, e=0)


def method_name(det):
    m = getattr(det, "method_", None)
    return getattr(m, "value", m) or ""


def detect(t, given=None, method="auto", skip=True, detector=None, entry="detect"):
    """One detection; everything observable about it."""
    if talking(t, method, entry):
        with contextlib.redirect_stdout(io.StringIO()):
            return detect1(t, given, method, skip, detector, entry, dict(verbose=True))
    return detect1(t, given, method, skip, detector, entry, {})


def detect1(t, given, method, skip, detector, entry, more):
    o = dict(exc=False, none=True, r=NOD, m="", what="")
    try:
        det = detector or clevercsv.Detector()
        kw = dict(more)
        if given is not None:
            kw["delimiters"] = given
        if entry == "sniff":
            r = det.sniff(t, **kw)
            o["m"] = method_name(det)
        elif entry == "normal":
            from clevercsv.normal_form import detect_dialect_normal
            r = detect_dialect_normal(t, **kw)
        elif entry == "consistency":
            from clevercsv.consistency import detect_dialect_consistency
            r = detect_dialect_consistency(t, skip=skip, **kw)
        else:
            k = zlib.crc32(repr((t, method, skip)).encode()) % 4
            if k == 0:
                from clevercsv.detect import DetectionMethod
                kw["method"] = DetectionMethod(method)
            elif method != "auto" or k == 1:
                kw["method"] = method
            if not skip:
                kw["skip"] = False
            r = det.detect(t, **kw)
            o["m"] = method_name(det)
        o["none"] = r is None
        if r is not None:
            o["r"] = rec(r)
            o["dialect"] = r
    except Exception as e:
        o["exc"] = True
        o["what"] = repr(e)
    return o


def ranks(xs):
    """Dense ranks of the values, from 1; None has rank 0."""
    vs = sorted({x for x in xs if x is not None})
    return [0 if x is None else vs.index(x) + 1 for x in xs]


def scores(t, dialects, skip=True, capacity=100000, detector=None):
    """compute_consistency_scores and get_best_dialects."""
    from clevercsv.consistency import ConsistencyDetector
    if detector is None and talking(t, skip):
        with contextlib.redirect_stdout(io.StringIO()):
            cd = ConsistencyDetector(skip=skip, verbose=True, cache_capacity=capacity)
            sc = cd.compute_consistency_scores(t, dialects)
            return sc, cd.get_best_dialects(sc)
    cd = detector or ConsistencyDetector(skip=skip, cache_capacity=capacity)
    sc = cd.compute_consistency_scores(t, dialects)
    best = cd.get_best_dialects(sc)
    return sc, best


def reading_end(t, d):
    try:
        for _ in clevercsv.reader(io.StringIO(t, newline=""), SimpleDialect(d.delimiter, d.quotechar, d.escapechar)):
            pass
        for _ in clevercsv.reader(io.StringIO(t, newline=""), d):
            pass
        return "stop"
    except Exception:
        return "err"


def run(how, t, given=None, method="auto", skip=True, dialects=None, capacity=100000, detector=None, cdetector=None,
        entry="detect"):
    """One run for TraceRuns."""
    o = detect(t, given, method, skip, detector, entry)
    o.pop("dialect", None)
    res = dict(how=how, hasres=True, hassc=False, sc=[], best=[], **o)
    res["best"] = []
    if dialects is not None and not o["exc"]:
        try:
            sc, best = scores(t, dialects, skip, capacity, cdetector)
            res["hassc"] = True
            res["sc"] = sorted((dict(p=rec(d), P=repr(s.P), T="" if s.T is None else repr(s.T),
                                     Q="" if s.Q is None else repr(s.Q)) for d, s in sc.items()), key=repr)
            res["best"] = sorted(map(rec, best), key=repr)
        except Exception as e:
            res["exc"], res["what"] = True, repr(e)
    return res


def main():
    src, dst = sys.argv[1:3]
    with open(src) as f:
        jobs = json.load(f)
    from clevercsv.potential_dialects import get_dialects
    out = []
    for j in jobs:
        given = j["given"]
        if given is not None and j["set"]:
            given = set(given)
        try:
            ds = get_dialects(j["t"], delimiters=None if given is None else list(given))
        except Exception:
            ds = None
        out.append(run("process", j["t"], given, j["method"], j["skip"], ds))
    with open(dst, "w") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main()
