#!/usr/bin/env python3
"""seeded.py [--nocheck] [-j N] [id...]: try every planted bug of seeded/ in a scratch copy of /repo.

Per bug: the patch applies and changes original lines, the library's own tests build and still pass, the
demonstration passes without and fails with the patch, and the quick check of the bug's property reports it."""
import collections, concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time

import threading
LOCKS = collections.defaultdict(threading.Lock)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf-8", "replace")


def tests(copy):
    b = copy + "/_build"
    shutil.rmtree(b, ignore_errors=True)
    rc, out = sh(["cmake", "-S", copy, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug", "-DDEVELOPMENT=ON",
                  "-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_CXX_FLAGS=-include cstdint"], env={"CC": "gcc", "CXX": "g++"})
    if rc: return "cmake: " + out[-400:]
    rc, out = sh(["ninja", "-C", b])
    if rc: return "build: " + out[-800:]
    d = tempfile.mkdtemp(prefix="seedrun")
    rc, out = sh([b + "/test/CaitlynTest"], cwd=d, timeout=120)
    shutil.rmtree(d)
    n = len(re.findall(r"\[       OK \]", out))
    if n != 41 or re.search(r"\[     FAIL \]", out): return "tests: rc=%d, %d pass\n%s" % (rc, n, out[-800:])
    return None


def original(patch):
    """The removed lines must stem from the repository's first commit."""
    root = sh(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=REPO)[1].strip()
    f, n, bad, good = None, 0, [], 0
    blame = {}
    for l in open(patch, encoding="utf-8", errors="replace"):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif f and l.startswith("-") and not l.startswith("---"):
            if f not in blame:
                blame[f] = [x.split()[0] for x in sh(["git", "blame", "-l", "-s", f], cwd=REPO)[1].splitlines()]
            c = blame[f][n - 1].lstrip("^")
            if root.startswith(c): good += 1
            else: bad.append("%s:%d" % (f, n))
            n += 1
        elif f and l.startswith(" "): n += 1
    return good, bad


def one(bug, check=True):
    d = os.path.join(HERE, "seeded", bug)
    meta = json.load(open(d + "/meta.json"))
    tmp = tempfile.mkdtemp(prefix="seed_" + bug + "_", dir="/tmp")
    copy = tmp + "/repo"
    res = []
    try:
        good, bad = original(d + "/patch.diff")
        if not good: res.append("NO-ORIGINAL-LINE")
        if bad: res.append("changes-own:" + ",".join(bad))
        sh(["cp", "-a", REPO, copy])
        demo = tmp + "/demo"
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        rc, out = sh(["bash", demo + "/demo.sh"], cwd=copy, timeout=300)
        if rc: res.append("DEMO-FAILS-CLEAN rc=%d %s" % (rc, out[-600:]))
        rc, out = sh(["git", "apply", d + "/patch.diff"], cwd=copy)
        if rc: return bug, meta["property"], ["PATCH " + out], None
        t = tests(copy)
        if t: res.append("TESTS " + t)
        rc, out = sh(["bash", demo + "/demo.sh"], cwd=copy, timeout=300)
        if rc == 0: res.append("DEMO-PASSES-PATCHED")
        elif "error:" in out and meta["property"] != "H01" and not meta.get("compile_error"): res.append("DEMO-COMPILE-ERROR " + out[-600:])
        caught = None
        if check:
            with LOCKS[meta["property"]]:
              s = time.time()
              rc, out = sh([sys.executable, HERE + "/check.py", meta["property"], "quick"], env={"CAITLYN_REPO": copy, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")})
            v = [l for l in out.splitlines() if l.startswith("VIOLATION property=" + meta["property"])]
            caught = "caught" if rc == 1 and v else "MISSED rc=%d" % rc
            caught += " %.0fs" % (time.time() - s)
            with open("/tmp/seeded_%s.log" % bug, "w") as fh: fh.write(out)
        return bug, meta["property"], res, caught
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def note(bug, outcome):
    """tools/seeded_results.json: what the quick check said about each valid bug; DESIGN.md quotes it."""
    path = HERE + "/tools/seeded_results.json"
    r = json.load(open(path)) if os.path.exists(path) else {}
    r[bug] = "caught" if outcome.startswith("caught") else "MISSED"
    json.dump(r, open(path, "w"), indent=1, sort_keys=True)


def main():
    a = sys.argv[1:]
    check = "--nocheck" not in a
    a = [x for x in a if x != "--nocheck"]
    j = 2
    if "-j" in a:
        i = a.index("-j"); j = int(a[i + 1]); del a[i:i + 2]
    bugs = a or sorted(os.listdir(HERE + "/seeded"))
    with concurrent.futures.ThreadPoolExecutor(j) as ex:
        for f in concurrent.futures.as_completed([ex.submit(one, b, check) for b in bugs]):
            b, p, res, c = f.result()
            if c and not res:
                note(b, c)
            print(b, p, c or "-", "; ".join(res) or "valid", flush=True)


main()
