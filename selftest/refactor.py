#!/usr/bin/env python3
"""Edits of /repo that keep its behaviour: every check has to stay quiet on them.

usage: refactor.py [name-substring] [--props C01,C02] [-j N]
Each edit is made in a scratch copy, built and tested with the repository's own tests, and then analysed.
Not run by any registered check: it tests the checks."""
import os, re, subprocess, sys, shutil, tempfile, json
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EDITS = []

class T:
    def __init__(s, d): s.d = d
    def read(s, f): return open(os.path.join(s.d, f)).read()
    def write(s, f, x): open(os.path.join(s.d, f), "w").write(x)
    def sub(s, f, old, new, n=1):
        x = s.read(f)
        assert old in x, (f, old)
        s.write(f, x.replace(old, new) if n == 0 else x.replace(old, new, n))
    def rsub(s, f, pat, new, flags=re.S):
        x = s.read(f)
        y, k = re.subn(pat, new, x, flags=flags)
        assert k > 0, (f, pat)
        s.write(f, y)
    def body(s, f, head, new):
        """replaces the function that starts with head (up to the closing brace in column 0)"""
        x = s.read(f)
        i = x.index(head)
        j = x.index("\n}\n", i) + 3
        s.write(f, x[:i] + new.strip("\n") + "\n" + x[j:])
    def imp(s, f, *pk):
        x = s.read(f)
        for p in pk:
            if '"%s"' % p not in x:
                x = x.replace("import (\n", 'import (\n\t"%s"\n' % p, 1) if "import (" in x else x.replace("\n\n", '\n\nimport (\n\t"%s"\n)\n\n' % p, 1)
        s.write(f, x)
    def unimp(s, f, *pk):
        x = s.read(f)
        for p in pk:
            x = x.replace('\t"%s"\n' % p, "", 1)
        s.write(f, x)

def edit(name):
    def deco(fn):
        EDITS.append((name, fn))
        return fn
    return deco

exec(open(os.path.join(V, "selftest/refactorings.py")).read())

def run(cmd, cwd, timeout=1000):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def main():
    args = [a for a in sys.argv[1:]]
    props = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
    j = 1
    if "--props" in args:
        i = args.index("--props"); props = args[i+1].split(","); del args[i:i+2]
    if "-j" in args:
        i = args.index("-j"); j = int(args[i+1]); del args[i:i+2]
    if "--skip" in args:
        i = args.index("--skip"); sk = args[i+1].split(","); props = [p for p in props if p not in sk]; del args[i:i+2]
    todo = [(n, f) for n, f in EDITS if not args or any(a in n for a in args)]
    base = tempfile.mkdtemp(prefix="refactor-")
    def one(e):
        n, f = e
        d = os.path.join(base, n)
        shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git"))
        out = []
        try:
            f(T(d))
        except AssertionError as x:
            return n, ["EDIT FAILED %s" % (x,)]
        run(["gofmt", "-w", "."], d)
        rc, o = run(["go", "vet", "."], d)
        rc, o = run(["go", "test", "./..."], d)
        if rc != 0:
            return n, ["TESTS FAIL " + o[-1500:]]
        for t in ("removecomments", "snake2camel"):
            rc, o = run(["go", "test", "./..."], os.path.join(d, "tools", t))
            if rc != 0:
                return n, ["TESTS FAIL " + o[-1500:]]
        v = os.path.join(base, "v-" + n); os.makedirs(v)
        shutil.copy(os.path.join(V, "known-findings.txt"), v)
        for p in props:
            rc, o = run([os.path.join(V, "bin/urncheck"), "-prop", p, "-repo", d, "-verif", v], V)
            if rc != 0:
                out.append("%s rc=%d %s" % (p, rc, "\n      ".join(x[:420] for x in o.splitlines()[:4])))
        shutil.rmtree(d); shutil.rmtree(v)
        return n, out
    bad = 0
    with ThreadPoolExecutor(j) as ex:
        for n, out in ex.map(one, todo):
            print(("ALARM " if out else "quiet ") + n, flush=True)
            for o in out:
                print("   " + o, flush=True)
            bad += bool(out)
    shutil.rmtree(base)
    print("%d edits, %d with alarms" % (len(todo), bad))
    return bad > 0

sys.exit(main())
