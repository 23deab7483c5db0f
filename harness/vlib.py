"""Driver library: TLC as generator and oracle, pycircstat2 as the subject.

A check is: (1) TLC model-checks the specification's own laws on small
constants; (2) TLC in simulation mode draws behaviours of the specification;
(3) the behaviours are replayed in the real code through its public API and
what it returns is recorded; (4) TLC validates every recorded step against the
specification (definition clauses and law clauses).
"""
import json
import math
import multiprocessing
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
EVID = os.path.join(ROOT, "evidence")
REPO = os.environ.get("VERIF_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = int(os.environ.get("VERIF_NPROC", "0")) or min(8, os.cpu_count() or 1)

for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["MPLBACKEND"] = "Agg"
sys.dont_write_bytecode = True

T = 360000000
ANAN = -2000000000
FNAN = [0, 9999]


class CallTimeout(Exception):
    pass


# ---------------------------------------------------------------- encodings
def rad(a):
    """millionths of a degree -> radians"""
    return a * (math.pi / 180000000.0)


def rads(seq):
    import numpy as np

    return np.array([rad(a) for a in seq], dtype=float)


def A(x):
    """radians -> millionths of a degree (ANAN when undefined or wild)"""
    try:
        import numpy as np

        x = np.asarray(x)
        if x.size != 1 or np.iscomplexobj(x):
            return ANAN
        x = float(x.reshape(-1)[0])
    except Exception:
        return ANAN
    if not math.isfinite(x):
        return ANAN
    a = x * (180000000.0 / math.pi)
    if abs(a) > 1.99e9:
        return ANAN
    return int(round(a))


def F(x):
    """number -> [mantissa, exponent], eight digits"""
    try:
        import numpy as np

        x = np.asarray(x)
        if x.size != 1 or np.iscomplexobj(x):
            return list(FNAN)
        x = float(x.reshape(-1)[0])
    except Exception:
        return list(FNAN)
    if math.isnan(x):
        return list(FNAN)
    if math.isinf(x):
        return [10000000 if x > 0 else -10000000, 900]
    if x == 0:
        return [0, 0]
    m, e = ("%.7e" % x).split("e")
    return [int(m.replace(".", "")), int(e) - 7]


def unF(p):
    m, e = p
    if e == 9999:
        return float("nan")
    if e >= 900:
        return math.copysign(float("inf"), m)
    return float("%de%d" % (m, e))


def AV(x):
    import numpy as np

    return [A(v) for v in np.asarray(x, dtype=float).reshape(-1)]


def FV(x):
    import numpy as np

    return [F(v) for v in np.asarray(x, dtype=float).reshape(-1)]


def INT(x):
    try:
        import numpy as np

        x = np.asarray(x)
        if x.size != 1:
            return -999999999
        f = float(x.reshape(-1)[0])
        if not math.isfinite(f) or f != round(f) or abs(f) > 2e9:
            return -999999999
        return int(f)
    except Exception:
        return -999999999


def IV(x):
    import numpy as np

    return [INT(v) for v in np.asarray(x).reshape(-1)]


ENC = {
    "A": (A, ANAN), "F": (F, FNAN), "AV": (AV, []), "FV": (FV, []),
    "I": (INT, -999999999), "IV": (IV, []),
    "B": (lambda b: 1 if bool(b) else 0, -1),
    "S": (str, "?"),
    "J": (lambda v: v, []),
}


def call(fn, limit=20.0):
    """(value, None) or (None, name of the exception)"""

    def onalarm(sig, frm):
        raise CallTimeout()

    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return fn(), None
    except CallTimeout:
        return None, "Timeout"
    except Exception as e:
        return None, type(e).__name__
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Obs:
    """Observations of one step."""

    def __init__(self):
        self.o = {}
        self.exc = []

    def get(self, name, kind, fn, limit=20.0):
        """Encode the value of fn(); an exception is recorded under its name."""
        v, e = call(fn, limit)
        enc, default = ENC[kind]
        if e is None:
            try:
                self.o[name] = enc(v)
            except Exception as ex:
                e = "Shape:" + type(ex).__name__
        if e is not None:
            self.o[name] = list(default) if isinstance(default, list) else default
            self.exc.append(name)
            self.o.setdefault("why", {})[name] = e
        return v

    def tup(self, names, kinds, fn, limit=20.0):
        """The same for a function returning a tuple."""
        v, e = call(fn, limit)
        if e is None:
            try:
                v = tuple(v)
                if len(v) < len(names):
                    e = "Shape"
            except Exception:
                e = "Shape"
        for i, (nm, kd) in enumerate(zip(names, kinds)):
            enc, default = ENC[kd]
            ok = e is None
            if ok:
                try:
                    self.o[nm] = enc(v[i])
                except Exception:
                    ok = False
            if not ok:
                self.o[nm] = list(default) if isinstance(default, list) else default
                self.exc.append(nm)
                self.o.setdefault("why", {})[nm] = e or "Shape"
        return v if e is None else None

    def rec(self, base):
        r = dict(base)
        why = self.o.pop("why", {})
        r["o"] = self.o
        r["exc"] = self.exc
        r["why"] = [[k, v] for k, v in why.items()]
        return r


# ---------------------------------------------------------------- TLC
class SpecError(Exception):
    """The machinery itself failed (not the code under test)."""


class Ctx:
    def __init__(self, pid, argv=None):
        self.t0 = time.time()
        self.pid = pid
        argv = sys.argv[1:] if argv is None else argv
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in argv:
            self.tier = "thorough"
        if "--quick" in argv:
            self.tier = "quick"
        self.quick = self.tier != "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        os.environ["MPLCONFIGDIR"] = os.path.join(self.scratch, "mpl")
        os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
        sys.path.insert(0, REPO)
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.viol = []
        self.notes = {}
        self.coverage = {}
        self._mc = []
        self._n = 0
        self._cls = None
        # worker processes are forked before any thread is started
        import pycircstat2

        if not os.path.realpath(pycircstat2.__file__).startswith(os.path.realpath(REPO) + "/"):
            raise SpecError("pycircstat2 is not imported from " + REPO)
        sys.stdout.flush()
        sys.stderr.flush()
        self.pool = multiprocessing.get_context("fork").Pool(NPROC, initializer=_quiet)
        self._clsthread = threading.Thread(target=self._compile)
        self._clsthread.start()

    def _compile(self):
        out = os.path.join(self.scratch, "cls")
        os.makedirs(out, exist_ok=True)
        src = [os.path.join(SPEC, "java", f) for f in sorted(os.listdir(os.path.join(SPEC, "java"))) if f.endswith(".java")]
        p = subprocess.run(["javac", "-cp", JARS, "-d", out] + src, capture_output=True, text=True)
        self._cls = out if p.returncode == 0 else None
        if p.returncode:
            self._clserr = p.stderr

    def cp(self):
        self._clsthread.join()
        if self._cls is None:
            raise SpecError("javac failed: " + getattr(self, "_clserr", ""))
        return self._cls + ":" + JARS

    def tlc(self, module, cfg, args=(), env=None, timeout=800, xmx="2g", name="tlc", gc="-XX:+UseSerialGC"):
        self._n += 1
        md = tempfile.mkdtemp(prefix=name + "-md-", dir=self.scratch)
        cmd = ["timeout", "-k", "5", str(timeout), "java", gc] + (["-XX:TieredStopAtLevel=1"] if self.quick else []) + ["-Xmx" + xmx, "-Xss64m", "-Djava.io.tmpdir=" + md,
               "-cp", self.cp(), "tlc2.TLC", "-noGenerateSpecTE", "-nowarning", "-metadir", md, "-config", cfg] + list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True)
        shutil.rmtree(md, ignore_errors=True)
        return p.returncode, p.stdout + p.stderr

    def tick(self, what):
        if os.environ.get("VERIF_TIMES"):
            print("[%6.1f] %s" % (time.time() - self.t0, what), flush=True)

    # -- exhaustive checking of the specification's own laws
    def mc(self, module, cfg=None, workers=2, timeout=800, consts=None, xmx="4g"):
        """Start model checking in the background; joined by finish()."""
        if consts:
            body = open(os.path.join(SPEC, (cfg or module) + ".cfg")).read()
            for k, v in consts.items():
                body, n = re.subn(r"(?m)^(\s*%s\s*=).*$" % re.escape(k), lambda m: m.group(1) + " " + v, body)
                if n == 0:
                    raise SpecError("no constant %s in %s" % (k, cfg or module))
            path = os.path.join(self.scratch, "mc%d.cfg" % len(self._mc))
            open(path, "w").write(body)
        else:
            path = os.path.join(SPEC, (cfg or module) + ".cfg")
        res = {}

        def go():
            try:
                res["rc"], res["out"] = self.tlc(module, path, ["-workers", str(workers)], timeout=timeout, name="mc", gc="-XX:+UseParallelGC", xmx=xmx)
            except Exception as e:
                res["rc"], res["out"] = 99, repr(e)

        t = threading.Thread(target=go)
        t.start()
        self._mc.append((module, t, res))

    def join_mc(self):
        for module, t, res in self._mc:
            t.join()
            out = res.get("out", "")
            m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
            if res.get("rc") != 0 or not m:
                raise SpecError("model checking of %s failed (rc %s):\n%s" % (module, res.get("rc"), clean(out)[-3000:]))
            self.states += int(m.group(2))
            self.transitions += int(m.group(1))
            self.coverage.setdefault("model_checked", []).append({"module": module, "generated": int(m.group(1)), "distinct": int(m.group(2))})
        self._mc = []

    # -- behaviours of the specification
    def gen(self, module, consts, num, depth, salt=0, timeout=300, procs=1, spec="Spec"):
        """Simulate and return the printed histories."""
        cfg = os.path.join(self.scratch, "gen%d.cfg" % self._n)
        self._n += 1
        with open(cfg, "w") as f:
            f.write("SPECIFICATION %s\nCONSTANTS\n" % spec)
            for k, v in consts.items():
                f.write("  %s = %s\n" % (k, tla(v)))
            f.write("CHECK_DEADLOCK FALSE\n")
        outs = [None] * procs

        def go(i):
            outs[i] = self.tlc(module, cfg, ["-simulate", "num=%d" % (-(-num // procs)), "-depth", str(depth + 2), "-seed", str(self.seed * 1000003 + salt * 101 + i), "-workers", "1"], timeout=timeout, name="gen")

        ts = [threading.Thread(target=go, args=(i,)) for i in range(procs)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        hs = []
        self.tick("gen " + module)
        for rc, out in outs:
            for line in out.splitlines():
                if line.startswith('<<"@@H", '):
                    hs.append(json.loads(json.loads(line[len('<<"@@H", '):-2])))
            if rc != 0 or not hs:
                raise SpecError("generation with %s failed (rc %s):\n%s" % (module, rc, clean(out)[-3000:]))
        return hs

    # -- replay
    def record(self, fn, items, timeout=600, chunk=None):
        """fn(item) -> list of records; in worker processes."""
        items = list(items)
        if not items:
            return []
        res = self.pool.map_async(_guard(fn), items, chunksize=chunk or max(1, len(items) // (NPROC * 6)))
        try:
            out = res.get(timeout)
        except multiprocessing.TimeoutError:
            self.viol.append(("hang", {"items": len(items)}, None, "replay did not finish in %ds" % timeout))
            return []
        self.tick("record %d" % len(items))
        good = []
        for it, (r, err) in zip(items, out):
            if err:
                raise SpecError("recorder failed on %s:\n%s" % (json.dumps(it)[:800], err))
            good.append(r)
        return good

    # -- validation
    def validate(self, module, behaviours, timeout=800, label=None, cost=None, consts=None):
        if self.quick:
            timeout = min(timeout, 400)
        behaviours = [b for b in behaviours if b]
        if not behaviours:
            raise SpecError("nothing to validate with " + module)
        if cost is None:
            cost = lambda b: sum(len(json.dumps(r)) for r in b)
        order = sorted(range(len(behaviours)), key=lambda i: -cost(behaviours[i]))
        nch = max(1, min(NPROC, len(behaviours)))
        chunks = [[] for _ in range(nch)]
        load = [0] * nch
        for i in order:
            k = load.index(min(load))
            chunks[k].append(i)
            load[k] += cost(behaviours[i]) + 1
        cfg = os.path.join(self.scratch, "trace%d.cfg" % self._n)
        self._n += 1
        with open(cfg, "w") as f:
            f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Accepted\n")
            if consts:
                f.write("CONSTANTS\n" + "".join("  %s = %s\n" % (k, tla(v)) for k, v in consts.items()))
        res = [None] * nch
        idx = [None] * nch

        def go(k):
            path = os.path.join(self.scratch, "t%d-%d.ndjson" % (self._n, k))
            where = []
            with open(path, "w") as f:
                for i in sorted(chunks[k]):
                    for s, r in enumerate(behaviours[i]):
                        f.write(json.dumps(r) + "\n")
                        where.append((i, s))
            idx[k] = where
            res[k] = self.tlc(module, cfg, ["-workers", "1"], env={"TRACE": path}, timeout=timeout, name="val", xmx="3g")
            os.unlink(path)

        ts = [threading.Thread(target=go, args=(k,)) for k in range(nch)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        total = 0
        nviol = 0
        for k in range(nch):
            rc, out = res[k]
            for m in re.finditer(r'<<"@@VIOL", (\d+), "([^"]*)">>', out):
                i, s = idx[k][int(m.group(1)) - 1]
                b = behaviours[i]
                self.viol.append((m.group(2), b[s], b[s - 1] if s else None, module))
                nviol += 1
            for m in re.finditer(r'<<"@@STAT", "([^"]*)", (-?\d+)>>', out):
                st = self.coverage.setdefault("clause_evaluations", {})
                st[m.group(1)] = st.get(m.group(1), 0) + int(m.group(2))
            if rc == 0:
                total += len(idx[k])
                continue
            # TLC stopped: an operator of the specification met a value outside its domain
            ls = re.findall(r"(?m)^(?:/\\ )?l = (\d+)", out)
            if (rc in (75, 76, 77, 12, 13) or (rc == 124 and "Error: " in out)) and ls:
                n = int(ls[-1])
                if n <= len(idx[k]):
                    i, s = idx[k][n - 1]
                    b = behaviours[i]
                    self.viol.append(("value-outside-the-specification", b[s], b[s - 1] if s else None, module + ": " + clean(out)[-600:]))
                    nviol += 1
                    continue
            raise SpecError("validation with %s failed (rc %s):\n%s" % (module, rc, clean(out)[-3000:]))
        self.tick("validate " + module)
        self.states += total
        self.transitions += total
        self.validated += len(behaviours)
        lab = label or module
        c = self.coverage.setdefault("validated", {}).setdefault(lab, {"behaviours": 0, "steps": 0})
        c["behaviours"] += len(behaviours)
        c["steps"] += total
        for b in behaviours[:1]:
            if len(self.samples) < 6:
                self.samples.append({"spec": module, "first_step": trim(b[0])})
        return nviol

    # -- result
    def finish(self):
        self.join_mc()
        known = [k for k in load_known() if k.get("property") == self.pid and k.get("status") == "known"]
        hit = set()
        real = []
        for clause, rec, prev, mod in self.viol:
            k = next((i for i, f in enumerate(known) if matches(f, clause, rec)), None)
            if k is None:
                real.append((clause, rec, prev, mod))
            else:
                hit.add(k)
        for i in sorted(hit):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, known[i]["what"]))
        os.makedirs(EVID, exist_ok=True)
        shown = []
        seen = {}
        for clause, rec, prev, mod in real:
            seen[clause] = seen.get(clause, 0) + 1
            if seen[clause] > 2 or len(shown) >= 12:
                continue
            path = os.path.join(EVID, "replay-%s-%d.json" % (self.pid, len(shown)))
            with open(path, "w") as f:
                json.dump({"property": self.pid, "clause": clause, "spec": mod, "seed": self.seed, "tier": self.tier, "record": rec, "previous": prev}, f, indent=1)
            shown.append((clause, path))
        for clause, path in shown:
            print("  clause %s fails: see %s" % (clause, path))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        if real:
            print("violated clauses: %s" % seen)
        self.write_evidence(len(real))
        print("%s %s: %d behaviours validated, %d states, %.1f s%s" % (self.pid, self.tier, self.validated, self.states, time.time() - self.t0, "" if not real else ", VIOLATED"))
        return 1 if real else 0

    def write_evidence(self, nviol):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.validated, "samples": self.samples or ["none"]}
        cov.update(self.coverage)
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": ["TLC and its Java accelerators for Flt/Trig (compared with the TLA+ definitions by harness/selftest.py)",
                              "values are compared to about six significant digits"],
              "wall_s": round(time.time() - self.t0, 2), "violations": nviol}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def close(self):
        self._clsthread.join()
        self.pool.terminate()
        shutil.rmtree(self.scratch, ignore_errors=True)


def _quiet():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    import warnings

    warnings.filterwarnings("ignore")
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)


class _guard:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, item):
        import warnings

        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return self.fn(item), None
        except Exception:
            return None, traceback.format_exc()


def clean(out):
    return "\n".join(x for x in out.splitlines() if not x.startswith(("Loading ", "Parsing ", "Semantic ", "Linting ", "Computed ")))


def trim(r, lim=1200):
    s = json.dumps(r)
    return r if len(s) <= lim else s[:lim] + "..."


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=str)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    raise TypeError(v)


def load_known():
    p = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            if line.strip():
                out.append(json.loads(line))
    return out


def matches(f, clause, rec):
    if not re.fullmatch(f.get("clause", ".*"), clause):
        return False
    return f.get("key") is not None and isinstance(rec, dict) and rec.get("key") == f["key"]


def main(pid, run):
    ctx = Ctx(pid)
    rc = 2
    try:
        run(ctx)
        rc = ctx.finish()
    except SpecError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e))
    except Exception:
        print("CHECK-ERROR property=%s\n%s" % (pid, traceback.format_exc()))
    finally:
        ctx.close()
    sys.stdout.flush()
    os._exit(rc)
