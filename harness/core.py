"""Machinery shared by all checks: building the code under test from the
current working tree, running drivers against it, and having TLC decide what
they recorded."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
TLA_JARS = ("/opt/veriftools/tla/tla2tools.jar:"
            "/opt/veriftools/tla/CommunityModules-deps.jar")
NCPU = max(2, min(8, os.cpu_count() or 2))


class Machinery(Exception):
    """The check itself failed (exit 2); says nothing about the code."""


class Violation(Exception):
    def __init__(self, clause, case):
        super().__init__(clause)
        self.clause, self.case = clause, case


# ---------------------------------------------------------------- build

def build(work):
    """Compile the two extensions and copy the package into `work`/code."""
    code = os.path.join(work, "code")
    pkg = os.path.join(code, "clevercsv")
    shutil.copytree(os.path.join(REPO, "clevercsv"), pkg,
                    ignore=shutil.ignore_patterns("*.so", "__pycache__"))
    r = subprocess.run([PY, "-c",
        "import sysconfig as s;print(s.get_paths()['include']);print(s.get_config_var('EXT_SUFFIX'))"],
        capture_output=True, text=True)
    if r.returncode:
        raise Machinery("no python: " + r.stderr)
    inc, suffix = r.stdout.split()
    procs = []
    for src, mod in (("cparser.c", "cparser"), ("abstraction.c", "cabstraction")):
        cmd = ["gcc", "-shared", "-fPIC", "-O1", "-w", "-I", inc,
               os.path.join(REPO, "src", src), "-o", os.path.join(pkg, mod + suffix)]
        procs.append((cmd, subprocess.Popen(cmd, stderr=subprocess.PIPE, text=True)))
    for cmd, p in procs:
        _, err = p.communicate(timeout=300)
        if p.returncode:
            raise Machinery("build failed: %s\n%s" % (" ".join(cmd), err))
    return code


def code_env(code, extra=None):
    env = {k: v for k, v in os.environ.items()
           if k in ("PATH", "HOME", "VERIF_SEED", "VERIF_TIER")}
    env.update(PYTHONPATH=code + ":" + HERE, PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", LC_ALL="C.UTF-8", PYTHONUTF8="1",
               VERIF_CODE=code, MALLOC_PERTURB_="165")
    env.update(extra or {})
    return env


# ---------------------------------------------------------------- TLC

def java_cmd(mem="1500m", args=(), tmp=None):
    return ["java", "-XX:+UseSerialGC", "-Xss512m", "-Xmx" + mem, "-Djava.io.tmpdir=" + (tmp or "/tmp"),
            "-DTLA-Library=" + SPEC, "-cp", TLA_JARS, "tlc2.TLC"] + list(args)


RE_STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")
# what PrintT prints is broken over several lines if it is long
RE_BAD = re.compile(r'<<\s*"BAD",\s*(\d+),\s*"([^"]*)"(?:,\s*(.*?))?\s*>>', re.S)


def run_tlc(module, work, cfg=None, env=None, workers=1, args=(), timeout=800,
            mem="1500m"):
    """Run TLC on SPEC/module.tla; returns (returncode, stdout, wall)."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=work)
    cmd = java_cmd(mem, ["-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
                         "-config", os.path.join(SPEC, (cfg or module) + ".cfg")] + list(args) +
                        [os.path.join(SPEC, module + ".tla")], meta)
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=meta)
    except subprocess.TimeoutExpired as ex:
        out = ex.stdout.decode() if isinstance(ex.stdout, bytes) else (ex.stdout or "")
        return None, out, time.time() - t0
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout + p.stderr, time.time() - t0


def states_of(out):
    m = RE_STATES.findall(out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


# ---------------------------------------------------------------- context

class Ctx:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.quick = tier == "quick"
        self.code = None
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0,
                        evaluations=0, distinct_nontrivial=0, samples=[], rule="", parts=[])
        self.rules = []
        self.violations = []          # (clause, case, origin)
        self.lock = threading.Lock()

    def need_code(self):
        if self.code is None:
            self.code = build(self.work)
        return self.code

    def add(self, **kw):
        with self.lock:
            for k, v in kw.items():
                self.cov[k] = self.cov.get(k, 0) + v

    def violation(self, clause, case, origin):
        with self.lock:
            self.violations.append((clause, case, origin))

    # -------- drivers

    def run_driver(self, name, shard, nshards, out, extra_env=None, inp=None, timeout=None, pyargs=()):
        """Run harness driver `name` ("module:function").  The driver writes
        one JSON case per line to `out`, and statistics to out.stats."""
        env = code_env(self.need_code(), dict(
            DRV_SHARD=str(shard), DRV_NSHARDS=str(nshards), DRV_OUT=out,
            DRV_SEED=str(self.seed), DRV_TIER=self.tier, DRV_WORK=self.work,
            DRV_IN=inp or "", **(extra_env or {})))
        timeout = timeout or (600 if self.quick else 7200)
        cmd = [PY, "-X", "faulthandler", *pyargs, os.path.join(HERE, "rundriver.py"), name]
        try:
            p = subprocess.run(cmd, env=env, capture_output=True, text=True,
                               timeout=timeout, cwd=self.work, errors="replace")
        except subprocess.TimeoutExpired:
            self.violation("the code under test does not terminate",
                           progress_of(out), name)
            return None
        if p.returncode == -signal.SIGKILL:
            raise Machinery("driver %s was killed" % name)      # by whoever watches over the memory of the machine
        if p.returncode < 0 or p.returncode in (134, 139):
            self.violation("the code under test crashed the interpreter (signal %d)"
                           % -p.returncode, progress_of(out), name)
            return None
        if p.returncode:
            raise Machinery("driver %s failed (%d):\n%s" % (name, p.returncode, p.stderr[-4000:]))
        with open(out + ".stats") as f:
            st = json.load(f)
        return st

    def take_stats(self, st):
        self.add(evaluations=st["evaluations"], distinct_nontrivial=st["nontrivial"])
        with self.lock:
            if st.get("rule") and st["rule"] not in self.rules:
                self.rules.append(st["rule"])
            room = 6 - len(self.cov["samples"])
            self.cov["samples"].extend(st.get("samples", [])[:max(0, min(2, room))])
        for v in st.get("violations", []):
            self.violation(v["clause"], v["case"], "driver")

    # -------- components

    def trace(self, driver, module, nshards=None, cfg=None, timeout=None, mem="1500m", extra_env=None):
        """Record with a driver, validate with TLC, in parallel shards."""
        n = nshards or NCPU
        code = self.need_code()
        t0 = time.time()

        def one(i):
            out = os.path.join(self.work, "%s_%s_%d.ndjson" % (module, driver.replace(":", "_"), i))
            st = self.run_driver(driver, i, n, out, extra_env=extra_env)
            if st is None:
                return None
            self.take_stats(st)
            if st["cases"] == 0:
                return (0, 0, 0)
            return self.validate(out, st["cases"], module, cfg, timeout, mem)

        with cf.ThreadPoolExecutor(n) as ex:
            res = [r for r in ex.map(one, range(n)) if r]
        gen, dist, cases = (sum(x) for x in zip(*res)) if res else (0, 0, 0)
        self.add(states=dist, transitions=max(0, gen - len(res)), traces_validated_against_impl=cases)
        self.cov["parts"].append(dict(kind="trace validation", driver=driver, module=module,
                                      cases=cases, wall_s=round(time.time() - t0, 1)))

    def validate(self, path, ncases, module, cfg=None, timeout=None, mem="1500m"):
        timeout = timeout or (780 if self.quick else 7200)
        rc, out, wall = run_tlc(module, self.work, cfg, dict(TRACE=path), 1, (), timeout, mem)
        if rc is None:
            raise Machinery("TLC timed out validating %s" % path)
        bad = RE_BAD.findall(out)
        if out.count('"BAD"') != len(bad):
            raise Machinery("cannot read what TLC prints on %s:\n%s" % (path, out[-3000:]))
        gen, dist = states_of(out)
        for idx, clause, more in bad:
            self.violation(clause, nth_line(path, int(idx)), module)
        if rc != 0 or dist < ncases + 1:
            if bad and rc != 0:
                return gen, dist, ncases
            raise Machinery("TLC failed on %s (rc %s, %d states for %d cases):\n%s"
                            % (module, rc, dist, ncases, out[-5000:]))
        return gen, dist, ncases

    def mc(self, module, cfg=None, expect=None, workers=None, timeout=None, mem="4g", args=(), label=None):
        """Model check a specification; `expect` names the invariant/property
        that must be violated (a sanity check that the model can express the
        defect)."""
        timeout = timeout or (780 if self.quick else 7200)
        rc, out, wall = run_tlc(module, self.work, cfg, None, workers or NCPU, args, timeout, mem)
        gen, dist = states_of(out)
        if rc is None:
            raise Machinery("TLC timed out on %s" % (cfg or module))
        if expect is None:
            if rc != 0:
                raise Machinery("the specification %s violates its own properties:\n%s"
                                % (cfg or module, out[-6000:]))
        elif expect not in out or rc == 0:
            raise Machinery("the specification %s should violate %s:\n%s"
                            % (cfg or module, expect, out[-4000:]))
        self.add(states=dist, transitions=gen)
        self.cov["parts"].append(dict(kind="model checking", module=cfg or module, states=dist,
                                      generated=gen, wall_s=round(wall, 1),
                                      expected_violation=expect))
        return out

    def behaviours(self, module, cfg=None, num=100, depth=12, timeout=300, tag="BEH"):
        """Random behaviours of a specification: the module prints one line
        <<"BEH", "<json>">> per finished behaviour."""
        n = NCPU

        def one(i):
            rc, out, wall = run_tlc(module, self.work, cfg, None, 1,
                                    ["-simulate", "num=%d" % max(1, num // n), "-depth", str(depth),
                                     "-seed", str(self.seed * 1000 + i)], timeout)
            if rc not in (0,):
                raise Machinery("simulation of %s failed (rc %s):\n%s" % (module, rc, out[-3000:]))
            return parse_tagged(out, tag)
        with cf.ThreadPoolExecutor(n) as ex:
            res = list(ex.map(one, range(n)))
        beh = [b for r in res for b in r]
        return beh

    def replay(self, driver, behaviours, nshards=None, label=""):
        """Replay behaviours of the specification on the code; the driver
        compares after every action."""
        n = nshards or NCPU
        t0 = time.time()
        self.need_code()

        def one(i):
            mine = behaviours[i::n]
            if not mine:
                return 0
            inp = os.path.join(self.work, "beh_%s_%d.json" % (driver.replace(":", "_"), i))
            with open(inp, "w") as f:
                json.dump(mine, f)
            st = self.run_driver(driver, i, n, inp + ".out", inp=inp)
            if st is None:
                return 0
            self.take_stats(st)
            return len(mine)
        with cf.ThreadPoolExecutor(n) as ex:
            tot = sum(ex.map(one, range(n)))
        self.add(traces_validated_against_impl=tot)
        self.cov["parts"].append(dict(kind="replay of specification behaviours", driver=driver,
                                      behaviours=tot, wall_s=round(time.time() - t0, 1)))


def parse_tagged(out, tag):
    res = []
    for s in re.findall(r'<<\s*"%s",\s*"((?:[^"\\]|\\.)*)"\s*>>' % tag, out):
        res.append(json.loads(s.replace('\\"', '"').replace("\\\\", "\\")))
    return res


def nth_line(path, n):
    with open(path) as f:
        for i, line in enumerate(f, 1):
            if i == n:
                return json.loads(line)
    return None


def progress_of(out):
    try:
        with open(out + ".progress", "rb") as f:
            raw = f.read().split(b"\0", 1)[0]
        return json.loads(raw)
    except Exception as e:
        return dict(unknown=str(e))


# ---------------------------------------------------------------- main

def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def main(prop, fn, level="model_checking"):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="cleververif.")
    ctx = Ctx(prop, tier, seed, work)
    rc = 0
    try:
        try:
            fn(ctx)
        except Machinery:
            if not ctx.violations:
                raise
        known = [k for k in load_known() if k["property"] == prop and k.get("status") == "known"]
        fresh, seen = [], set()
        for clause, case, origin in ctx.violations:
            hit = None
            for k in known:
                if k["clause"] == clause and all(
                        isinstance(case, dict) and case.get(a) == b for a, b in k["match"].items()):
                    hit = k
            if hit is not None:
                seen.add(hit["id"])
            else:
                fresh.append((clause, case, origin))
        for k in known:
            if k["id"] in seen:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        if fresh:
            rc = 1
            by = {}
            for v in fresh:
                by.setdefault(v[0], []).append(v)
            for j, (clause, vs) in enumerate(sorted(by.items())):
                if j >= 5:
                    break
                v = min(vs, key=lambda v: len(json.dumps(v[1])))
                rp = os.path.join(VERIF, "evidence", "replay", "%s-%d.json" % (prop, j))
                with open(rp, "w") as f:
                    json.dump(dict(property=prop, clause=v[0], origin=v[2], count=len(vs), case=v[1]), f, indent=1)
                print("VIOLATION property=%s replay=%s" % (prop, rp))
                print("  clause: %s (%d cases); smallest: %s" % (clause, len(vs), json.dumps(v[1])[:600]))
    except Machinery as e:
        print("ERROR: %s" % e, file=sys.stderr)
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if rc != 2:
        cov = ctx.cov
        cov["rule"] = " | ".join(ctx.rules)
        if level != "model_checking":
            pass
        ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
                  wall_s=round(time.time() - t0, 2), violations=len(ctx.violations),
                  assumptions=ASSUMPTIONS)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if rc == 0:
            print("OK property=%s tier=%s seed=%d cases=%d states=%d wall=%.1fs" % (
                prop, tier, seed, cov["evaluations"], cov["states"], time.time() - t0))
    return rc


ASSUMPTIONS = [
    "TLC evaluates the TLA+ specification correctly",
    "the recorded observations are those of the code built from /repo's working tree",
]
