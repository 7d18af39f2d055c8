"""Driver for concurrent use (C25): threads under a scheduler that decides, line by line, which of them runs."""
import json
import os
import sys
import threading
import time
import traceback

import clevercsv

import d_api
from d_api import LIMITS, DEFAULT

PKG = os.path.dirname(clevercsv.__file__) + os.sep


class Worker(threading.Thread):
    """A thread that runs only when told to, for a number of lines of the library."""

    def __init__(self, W):
        super().__init__(daemon=True)
        self.W, self.objs = W, []
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.job = self.result = None
        self.budget = 0
        self.lines = 0
        self.free = False
        self.running = False
        self.start()

    def tracer(self, frame, event, arg):
        return self.local if frame.f_code.co_filename.startswith(PKG) else None

    def local(self, frame, event, arg):
        if event == "line" and not self.free:
            self.lines += 1
            self.budget -= 1
            if self.budget <= 0:
                self.back.release()
                self.go.acquire()
        return self.local

    def run(self):
        while True:
            self.go.acquire()
            if self.job is None:
                return
            op, a = self.job
            sys.settrace(self.tracer)
            try:
                r = self.W.do(op, a, self.objs)[0]
            except BaseException as e:
                r = "!!" + repr(e)
            sys.settrace(None)
            self.job = None
            self.result = (r,)
            self.back.release()

    def invoke(self, op, a):
        self.job, self.result, self.lines = (op, a), None, 0

    def advance(self, n):
        """Run n lines or to the end of the call; True: the call has ended, False: it has not, None: it waits for another thread."""
        if not self.running:
            self.budget = n
            self.running = True
            self.go.release()
        if not self.back.acquire(timeout=0.5):
            return None
        self.running = False
        return self.result is not None

    def quit(self):
        self.job = None
        self.go.release()


ALL = 1 << 60


class Run:
    """One interleaving and its record."""

    def __init__(self, W, num, nthreads):
        W.reset()
        self.W, self.num = W, num
        self.ws = [Worker(W) for _ in range(nthreads)]
        self.open = [False] * nthreads
        self.ev = []
        self.stuck = False

    def look(self):
        l = clevercsv.field_size_limit()
        return LIMITS.index(l) + 1 if l in LIMITS else -1

    def event(self, ph, t, op="", a=0, r=0, l=None):
        self.ev.append(dict(ph=ph, t=t + 1, op=op, a=a, r=r, l=self.look() if l is None else l))

    def invoke(self, t, op, a):
        self.event("inv", t, op, a, l=0)
        self.ws[t].invoke(op, a)
        self.open[t] = True
        self.now = (op, a)

    def advance(self, t, n):
        """True: the call of t has ended (and is recorded)"""
        for _ in range(40):
            r = self.ws[t].advance(n)
            if r is not None:
                break
            for u, w in enumerate(self.ws):      # t waits for another thread: let the others go on
                if u != t and self.open[u]:
                    if w.advance(200):
                        self.ended(u)
        else:
            self.stuck = True
            return True
        if r:
            self.ended(t)
        else:
            self.event("look", t)
        return r

    def ended(self, t):
        r = self.ws[t].result[0]
        self.open[t] = False
        self.event("res", t, r=self.num(r) if isinstance(r, str) else r, l=0)
        self.event("look", t)

    def close(self):
        for _ in range(100):
            left = [t for t in range(len(self.ws)) if self.open[t]]
            if not left or self.stuck:
                break
            for t in left:
                if self.open[t]:
                    self.advance(t, ALL)
        for w in self.ws:
            w.quit()


def setup(D):
    sys.settrace(None)
    W, ref = d_api.catalogue(D, files=False)
    d_api.check_sizes(W, "ConcurrentSim")
    ids = {}

    def num(s):
        return ids.setdefault(s, len(ids) + 1)
    nref = [[[num(x) for x in per] for per in k] for k in ref]
    return W, ref, nref, num


def fresh(D, W, num, nref, seconds):
    """The same in processes that have not used the library before: whatever it sets up at its first use, it sets up while
    another thread is about to use it, too."""
    rng = D.rng
    nc = len(W.calls)
    texts, stop, lines = {}, time.time() + seconds, {}
    names = W.names()

    def child(fn):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                x = fn()
                with os.fdopen(w, "w") as f:
                    json.dump(x, f)
            except BaseException:
                traceback.print_exc()
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            x = json.loads(f.read() or "null")
        os.waitpid(pid, 0)
        return x

    def alone(a):
        R = Run(W, str, 2)
        R.invoke(1, "call", a)
        R.advance(1, ALL)
        n = R.ws[1].lines
        R.close()
        return n

    def switched(a, b, p):
        R = Run(W, str, 3)
        R.invoke(1, "call", a)
        if not R.advance(1, p):
            R.invoke(2, "call", b)
            R.advance(2, ALL)
            R.advance(1, ALL)
        R.close()
        return R.ev, R.stuck

    def free(ks):
        sys.setswitchinterval(1e-6)
        W.reset()
        ev, lock, gate = [], threading.Lock(), threading.Barrier(len(ks))

        def work(t, k):
            with lock:
                ev.append(dict(ph="inv", t=t, op="call", a=k, r=0, l=0))
            gate.wait()
            r = W.do("call", k)[0]
            with lock:
                ev.append(dict(ph="res", t=t, op="", a=0, r=r, l=0))
        ts = [threading.Thread(target=work, args=(t + 1, k)) for t, k in enumerate(ks)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return ev, False

    done = 0
    while time.time() < stop:
        a = rng.randint(1, nc)
        b = a if rng.random() < .6 else rng.randint(1, nc)
        if rng.random() < .3:
            ks = [a, b, rng.choice([a, b])]
            D.begin(dict(fresh="free", calls=[names[k - 1] for k in ks]))
            x = child(lambda: free(ks))
        else:
            if a not in lines:
                lines[a] = child(lambda: alone(a)) or 1
            p = rng.randint(1, lines[a]) if rng.random() < .6 else min(lines[a], 1 + int(rng.expovariate(.02)))
            D.begin(dict(fresh="switch", A=names[a - 1], B=names[b - 1], line=p))
            x = child(lambda: switched(a, b, p))
        done += 1
        R = type("R", (), dict(ev=[], stuck=x is None or x[1]))
        for e in x[0] if x else []:
            R.ev.append(dict(e, r=num(e["r"]) if isinstance(e["r"], str) else e["r"]))
        emit(D, W, nref, R, ("fresh", a, b, done))


def emit(D, W, nref, R, key):
    if R.stuck:
        D.violation("threads wait for each other for ever", dict(events=R.ev))
        return
    used = {e["a"] for e in R.ev if e["op"] in ("call", "new")}
    names = W.names()
    for e in R.ev:
        e["name"] = names[e["a"] - 1] if e["op"] in ("call", "new") else ""
    D.emit(dict(ref=[nref[k] if k + 1 in used else [] for k in range(len(nref))], ev=R.ev), key)


def c25(D):
    D.rule = ("two or three threads running detections, header detections, scores, readers and dict readers, one of them also setting, reading and "
              "mis-setting the limit; every single switch between two calls at each line of the library (sampled for long calls), random "
              "switches at line granularity, free-running threads, and switches and free-running threads at the first use in a process; non-trivial: a call is interrupted by another")
    W, ref, nref, num = setup(D)
    rng = D.rng
    names = W.names()
    nc, nk = len(W.calls), len(W.kinds)
    ix = {n: i + 1 for i, n in enumerate(names)}
    with D.guard(840):
        fresh(D, W, num, nref, 5 if D.quick else 150)
        # one switch: the call A is interrupted after n lines by B (from beginning to end)
        A = [ix[n] for n in ("detect 1", "detect consistency 1", "detect consistency 3", "type score 2 2", "scores 1", "ties", "has_header 1",
                             "reader 1", "detect 9", "ties four", "parse_data 2", "DictReader", "types", "dialects", "detect normal", "writer 1",
                             "DictWriter", "pattern score 1", "detect consistency 9", "type score 9 0", "reader, generator 0", "reader, generator 1", "parse_data, nested")]
        B = [("set", 1), ("set", 2), ("call", ix["detect consistency 9"]), ("call", ix["detect 1"]), ("call", ix["type score 2 2"]),
             ("call", ix["reader 9"]), ("call", ix["detect 6"]), ("call", ix["scores 2"]), ("call", ix["reader, generator 1"]), ("call", ix["types"]), ("call", ix["ties"])]
        pairs = [(a, b) for a in A for b in B]
        stop = time.time() + (9 if D.quick else 240)
        lines = {}
        for j, (a, b) in enumerate(D.mine(pairs)):
            R = Run(W, num, 2)
            R.invoke(1, "call", a)
            R.advance(1, ALL)
            R.close()
            n = lines[a] = R.ws[1].lines
            share = (stop - time.time()) / max(1, len(pairs) // D.nshards - j)
            t0 = time.time()
            points = list(range(1, n + 1))
            if n > 60:
                # always the first lines, then spread over the call
                rest = points[20:]
                rng.shuffle(rest)
                points = points[:20] + rest
            for p in points:
                if time.time() - t0 > share:
                    break
                R = Run(W, num, 3)
                D.begin(dict(A=names[a - 1], B=str(b) + (names[b[1] - 1] if b[0] == "call" else ""), line=p))
                if rng.random() < .3:
                    R.invoke(0, "set", rng.randint(1, 3))
                    R.advance(0, ALL)
                R.invoke(1, "call", a)
                if not R.advance(1, p):
                    t = 0 if b[0] == "set" else 2
                    R.invoke(t, *b)
                    R.advance(t, ALL)
                    R.advance(1, ALL)
                R.close()
                emit(D, W, nref, R, (a, b, p))
        # many switches
        for h in range(D.n_cases(260, 6000)):
            n = rng.choice([2, 3])
            R = Run(W, num, n)
            D.begin(dict(random=h, seed=D.seed, shard=D.shard))
            kinds = [[] for _ in range(n)]
            pace = rng.choice([1, 3, 20, 200])
            ended = 0
            for _ in range(90):
                t = rng.randrange(n)
                if R.open[t]:
                    ended += bool(R.advance(t, max(1, int(rng.expovariate(1 / pace)) if rng.random() < .8 else rng.randint(1, 3000))))
                else:
                    if ended > 14:
                        break
                    w = rng.randrange(12)
                    if t == 0 and w < 6:
                        R.invoke(0, *(("set", rng.randint(1, len(LIMITS))) if w < 4 else ("bad", rng.randint(1, len(d_api.BAD))) if w == 4 else ("get", 0)))
                    elif w < 9 or not kinds[t] and w == 11:
                        R.invoke(t, "call", rng.randint(1, nc))
                    elif w < 11 and len(kinds[t]) < 3:
                        kinds[t].append(nc + rng.randint(1, nk))
                        R.invoke(t, "new", kinds[t][-1])
                        ended += bool(R.advance(t, ALL))
                    elif kinds[t]:
                        R.invoke(t, "ask", rng.randint(1, len(kinds[t])))
                if R.stuck:
                    break
            R.close()
            emit(D, W, nref, R, (h, D.shard))
        # free-running threads, limit untouched
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            for h in range(D.n_cases(64, 800)):
                W.reset()
                ev, lock = [], threading.Lock()

                def work(t, ops):
                    for k in ops:
                        with lock:
                            ev.append(dict(ph="inv", t=t, op="call", a=k, r=0, l=0, name=names[k - 1]))
                        r = W.do("call", k)[0]
                        with lock:
                            ev.append(dict(ph="res", t=t, op="", a=0, r=num(r), l=0, name=""))
                ts = [threading.Thread(target=work, args=(t, [rng.randint(1, nc) for _ in range(6)])) for t in (1, 2, 3)]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
                l = clevercsv.field_size_limit()
                ev.append(dict(ph="look", t=1, op="", a=0, r=0, l=LIMITS.index(l) + 1 if l in LIMITS else -1, name=""))
                used = {e["a"] for e in ev}
                D.emit(dict(ref=[nref[k] if k + 1 in used else [] for k in range(nc + nk)], ev=ev), (h, "free"))
        finally:
            sys.setswitchinterval(old)


PACE = [1, 3, 10, 40, 150, 600, 2500]


def c25_replay(D):
    D.rule = "interleavings generated from ConcurrentSim, replayed under the scheduler; non-trivial: all"
    W, ref, nref, num = setup(D)
    back = {}
    names = W.names()
    with D.guard(840):
        for beh in D.input():
            D.begin(beh)
            D.evals += 1
            D.nontrivial.add(hash(json.dumps(beh)))
            R = Run(W, num, 3)
            got = {}
            for j, e in enumerate(beh):
                t = e["t"] - 1
                if e["ph"] == "inv":
                    R.invoke(t, e["op"], e["a"])
                elif e["ph"] == "step":
                    if R.open[t]:
                        R.advance(t, PACE[e["a"] - 1])
                else:
                    if R.open[t]:
                        R.advance(t, ALL)
                    if R.stuck:
                        break
                    r = R.ws[t].result[0]
                    want = []
                    for q in e["al"]:
                        if e["op"] == "bad":
                            want.append(1)
                        elif q["k"] == 0:
                            want.append(q["g"])
                        else:
                            s = ref[q["k"] - 1][q["g"] - 1]
                            want.append(s[q["n"]] if q["n"] < len(s) else r)
                    if r not in want:
                        D.violation("a result is not one of those the specification allows",
                                    dict(step=j, got=r, want=want, events=[[x["ph"], x["t"], x["op"], x["a"],
                                         names[x["a"] - 1] if x["op"] in ("call", "new") and x["ph"] == "inv" else ""] for x in beh[:j + 1]]))
                        break
                if R.stuck:
                    break
            if R.stuck:
                D.violation("threads wait for each other for ever", dict(events=beh))
            R.close()
