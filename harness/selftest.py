"""The Java classes are only accelerators: TLC evaluates the same expressions
with and without them, and the printed values must agree."""
import json
import os
import subprocess
import sys
import tempfile
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def val(p):
    m, e = p
    return float("nan") if e == 9999 else float("%de%d" % (m, max(-400, min(e, 300))))


def close(u, v):
    """Equal up to the last digits of an eight digit number (or 1e-8 of a sine)."""
    if isinstance(u, list) and isinstance(v, list) and len(u) == 2:
        x, y = val(u), val(v)
        return (x != x and y != y) or abs(x - y) <= 3e-5 * max(abs(x), abs(y)) + 2e-7
    if isinstance(u, bool) or isinstance(v, bool):
        return u == v
    return u == v or abs(u - v) % 360000000 <= 400 or 360000000 - abs(u - v) % 360000000 <= 400


def main(n):
    tmp = tempfile.mkdtemp(prefix="verif-selftest-")
    try:
        cls = os.path.join(tmp, "cls")
        os.makedirs(cls)
        src = [os.path.join(SPEC, "java", f) for f in os.listdir(os.path.join(SPEC, "java")) if f.endswith(".java")]
        subprocess.run(["javac", "-cp", JARS, "-d", cls] + src, check=True, capture_output=True)
        cfg = os.path.join(tmp, "s.cfg")
        open(cfg, "w").write("SPECIFICATION Spec\nCONSTANT N = %d\nCHECK_DEADLOCK FALSE\n" % n)
        rows = []
        for cp in (JARS, cls + ":" + JARS):
            md = tempfile.mkdtemp(dir=tmp)
            p = subprocess.run(["timeout", "600", "java", "-XX:+UseSerialGC", "-Xss64m", "-cp", cp, "tlc2.TLC", "-noGenerateSpecTE", "-nowarning", "-workers", "1", "-metadir", md, "-config", cfg, "Selftest.tla"], cwd=SPEC, capture_output=True, text=True)
            if p.returncode:
                print(p.stdout[-3000:])
                return 1
            rows.append([json.loads(json.loads(x[len('<<"@@R", '):-2])) for x in p.stdout.replace("<<\n  ", "<<").replace("@@R\",\n  ", "@@R\", ").replace(" >>\n", ">>\n").replace("<< \"@@R", "<<\"@@R").splitlines() if x.startswith('<<"@@R", ')])
        bad = 0
        for i, (x, y) in enumerate(zip(*rows)):
            for j, (u, v) in enumerate(zip(x, y)):
                if not close(u, v):
                    bad += 1
                    if bad < 10:
                        print("DIFFER row %d value %d: TLA+ %s, Java %s" % (i, j, u, v))
        if len(rows[0]) != n or len(rows[1]) != n or bad:
            print("selftest: %d differences in %d / %d rows" % (bad, len(rows[0]), len(rows[1])))
            return 1
        print("selftest: %d rows agree with and without the Java classes" % n)
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main(int(sys.argv[1]) if len(sys.argv) > 1 else 1500))
