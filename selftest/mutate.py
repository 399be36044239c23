#!/usr/bin/env python3
"""Small mechanical changes of /repo that compile and pass its tests: which of them does no check notice?

usage: mutate.py [--machine N] [--seed S] [-j N] [--out FILE] [--files a,b]
Not run by any registered check: it tests the checks. A survivor is either a change that keeps the behaviour
(the usual case: look at it) or something the properties or the checks leave out."""
import os, re, subprocess, sys, shutil, tempfile, random
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ARGS = dict(zip(sys.argv[1::2], sys.argv[2::2]))
UC = os.environ.get("UC", os.path.join(V, "bin/urncheck"))
R = random.Random(int(ARGS.get("--seed", "1")))
FILES = ARGS.get("--files", "urn.go,urn8141.go,scim.go,options.go,kind.go,parsing_mode.go,scim/schema/type.go,tools/removecomments/removecomments.go,tools/snake2camel/snake2camel.go").split(",") if ARGS.get("--files", "x") else []
ORDER = "C15 C17 C20 C01 C03 C04 C13 C06 C02 C05 C07 C16 C12 C14 C11 C18 C23 C21 C09 C19 C08 C10".split()

def swaps(l):
    """(new line, what) for each small change of a line of Go"""
    out = []
    code = l.split("//")[0] if not '"' in l else l
    def at(m, new, what): out.append((l[:m.start()] + new + l[m.end():], what))
    pairs = [("==", "!="), ("!=", "=="), ("<=", "<"), (">=", ">"), ("&&", "||"), ("||", "&&")]
    for a, b in pairs:
        for m in re.finditer(re.escape(a), code): at(m, b, a + "->" + b)
    for m in re.finditer(r"(?<![<>=!:+\-*/&|])<(?![<=-])", code): at(m, "<=", "<")
    for m in re.finditer(r"(?<![<>=!-])>(?![>=])", code): at(m, ">=", ">")
    for m in re.finditer(r"(?<=[\w\]) ])\+(?=[ \w(])(?!\+)", code):
        if '"' not in l: at(m, "-", "+->-")
    for m in re.finditer(r"(?<=[\w\]) ])-(?=[ \w(])(?!-)", code):
        if '"' not in l: at(m, "+", "-->+")
    for m in re.finditer(r"(?<![\w.\"])\d+(?![\w.])", code):
        if l.strip().startswith(("case", "goto", "st")) or True:
            n = int(m.group())
            for k in (n + 1, n - 1):
                if k >= 0: at(m, str(k), "%d->%d" % (n, k))
    for a, b in (("true", "false"), ("false", "true")):
        for m in re.finditer(r"\b%s\b" % a, code): at(m, b, a + "->" + b)
    for m in re.finditer(r'"([^"\\]+)"', l):
        if "import" not in l and "json" != m.group(1):
            at(m, '"' + m.group(1)[:-1] + '"', "string cut")
            at(m, '""', "string emptied")
    for m in re.finditer(r"\bif (?!err)([^{;]+) \{", code):
        at(m, "if !(%s) {" % m.group(1), "negated")
    s = l.strip()
    if re.match(r"[\w.\[\]]+(, [\w.\[\]]+)* (=|\+=|-=|\|=) ", s) or re.match(r"[\w.]+\(.*\)$", s) or re.match(r"[\w.]+(\+\+|--)$", s):
        out.append((l[:len(l) - len(l.lstrip())] + "// " + s, "deleted"))
    if s in ("break", "continue"):
        out.append((l.replace(s, {"break": "continue", "continue": "break"}[s]), s))
    m = re.match(r"(\s*)return (.+)$", l)
    if m:
        for p in ("nil", "false", "true", '""'):
            if m.group(2) != p and "," not in m.group(2): out.append((m.group(1) + "return " + p, "return " + p))
    for a, b in (("ToLower", "ToUpper"), ("u.SS", "u.ID"), ("u.ID", "u.SS"), ("rComponent", "qComponent"), ("qComponent", "rComponent"), ("fComponent", "qComponent"),
                 ("RFC2141", "RFC8141"), ("RFC8141", "RFC2141"), ("RFC7643", "RFC8141"), ("nu.", "nx."), ("nx.", "nu."), ("rStart", "qStart"), ("qStart", "rStart"),
                 ("m.pb", "m.p"), ("Only", "X"), ("Users", "Groups")):
        for m in re.finditer(re.escape(a), code): at(m, b, a + "->" + b)
    return out

def mutants():
    out = []
    for f in FILES:
        lines = open("/repo/" + f).read().split("\n")
        inimp = False
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith("import ("): inimp = True
            if inimp:
                if s == ")": inimp = False
                continue
            if not s or s.startswith("//") or s.startswith("package") or s.startswith("import"): continue
            for new, what in swaps(l): out.append((f, i, l, new, what))
    n = int(ARGS.get("--machine", "0"))
    if n:
        lines = open("/repo/machine.go").read().split("\n")
        labels = [m.group(1) for l in lines for m in [re.match(r"\s*st(\d+):", l)] if m]
        pool = []
        start = next(i for i, l in enumerate(lines) if l.startswith("type Machine"))
        for i, l in enumerate(lines):
            if i < start or l.strip().startswith("//"): continue
            for new, what in swaps(l): pool.append(("machine.go", i, l, new, what))
            m = re.match(r"(\s*)goto st(\d+)$", l)
            if m:
                for _ in range(2): pool.append(("machine.go", i, l, m.group(1) + "goto st" + R.choice(labels), "goto"))
                k = int(m.group(2))
                for d in (k - 1, k + 1):
                    if str(d) in labels: pool.append(("machine.go", i, l, m.group(1) + "goto st%d" % d, "goto"))
            m = re.match(r"(\s*)goto tr(\d+)$", l)
            if m:
                trs = sorted(set(re.findall(r"goto (tr\d+)", "\n".join(lines))))
                pool.append(("machine.go", i, l, m.group(1) + "goto " + R.choice(trs), "goto"))
        R.shuffle(pool)
        out += pool[:n]
    return out

def run(cmd, cwd, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def one(k, mu, base):
    f, i, old, new, what = mu
    d = os.path.join(base, "m%d" % k)
    try:
        shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        p = os.path.join(d, f)
        lines = open(p).read().split("\n")
        assert lines[i] == old
        lines[i] = new
        open(p, "w").write("\n".join(lines))
        rc, o = run(["go", "test", "./..."], d, 120)
        if rc: return None
        vd = os.path.join(base, "v%d" % k)
        os.makedirs(vd, exist_ok=True)
        shutil.copy(os.path.join(V, "known-findings.txt"), vd)
        for c in ORDER:
            rc, o = run([UC, "-prop", c, "-repo", d, "-verif", vd], d, 900)
            if rc == 1: return "caught %s %s:%d %s | %s" % (c, f, i + 1, what, new.strip())
            if rc: return "NOANSWER(%d) %s %s:%d %s | %s" % (rc, c, f, i + 1, what, new.strip())
        return "SURVIVED %s:%d %s | %s  <- %s" % (f, i + 1, what, new.strip(), old.strip())
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(os.path.join(base, "v%d" % k), ignore_errors=True)

def main():
    ms = mutants()
    out = open(ARGS.get("--out", "/tmp/mutants.txt"), "w")
    print(len(ms), "changes", file=out, flush=True)
    base = tempfile.mkdtemp(prefix="mutate-")
    n = killed = 0
    with ThreadPoolExecutor(int(ARGS.get("-j", "3"))) as ex:
        for r in ex.map(lambda a: one(a[0], a[1], base), enumerate(ms)):
            n += 1
            if r is None: killed += 1
            else: print(r, file=out, flush=True)
            if n % 50 == 0: print("# %d done, %d fail to build or the tests" % (n, killed), file=out, flush=True)
    print("# %d done, %d fail to build or the tests" % (n, killed), file=out, flush=True)
    shutil.rmtree(base, ignore_errors=True)

main()
