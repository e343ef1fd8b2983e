"""Shared pieces of all checks: building, evidence, reporting."""
import hashlib, json, os, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CAITLYN_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = 8


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def tree_hash(*extra_files, text=""):
    h = hashlib.sha256(text.encode())
    for root in (os.path.join(REPO, "include"), os.path.join(VERIF, "engine")):
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    for p in extra_files:
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread"],
    "none": [],
}
BASE = ["-g1", "-O1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-w", "-pthread"]


def run_compile(cmd, log):
    for attempt in range(2):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode == 0:
            return True
        # a compiler that was killed from outside says nothing about the code
        if "Killed" not in p.stdout and "out of memory" not in p.stdout and p.returncode > 0:
            break
    with open(log, "w") as f:
        f.write(" ".join(cmd) + "\n\n" + p.stdout[:200000])
    return False


def build(prop, src, cxx="clang++", std="c++14", san="asan", extra=(), fuzz=False):
    """Returns (binary or None, log). Binaries are keyed by the content of everything they are built from."""
    d = os.path.join(BUILD, prop)
    os.makedirs(d, exist_ok=True)
    flags = BASE + ["-std=" + std] + SAN[san] + list(extra)
    if san == "asan":
        flags += ["-D_GLIBCXX_SANITIZE_VECTOR=1"]
    if fuzz:
        flags += ["-DPBT_FUZZ", "-fsanitize=fuzzer"]
    key = tree_hash(src, text=" ".join([cxx] + flags))
    out = os.path.join(d, "bin-" + ("fuzz-" if fuzz else "") + key)
    log = os.path.join(d, "compile.log")
    if os.path.exists(out):
        return out, log
    for f in os.listdir(d):
        if f.startswith("bin-") and f.startswith("bin-fuzz-") == fuzz:
            os.unlink(os.path.join(d, f))
    tmp = out + ".tmp%d" % os.getpid()
    cmd = [cxx] + flags + ["-I", os.path.join(REPO, "include"), "-I", os.path.join(VERIF, "engine"), src, "-o", tmp]
    if not run_compile(cmd, log):
        return None, log
    os.rename(tmp, out)
    return out, log


def sanitizer_env(symbolize=0):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=3000:detect_stack_use_after_return=1:symbolize=%d:handle_abort=1" % symbolize + ""
    e["UBSAN_OPTIONS"] = "print_stacktrace=%d:exitcode=98" % symbolize
    e["TSAN_OPTIONS"] = "exitcode=97:halt_on_error=1:second_deadlock_stack=1"
    sym = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
    if sym:
        e["ASAN_SYMBOLIZER_PATH"] = sym
    return e


def replay_path(prop, text):
    d = os.path.join(BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, "%s-%s.txt" % (prop, hashlib.sha256(text.encode()).hexdigest()[:12]))


def known_findings():
    """known: property=<id> case=<hash of the minimal failing case> <what fails>"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: "):
                f = dict(w.split("=", 1) for w in line[7:].split() if "=" in w)
                out.append((f.get("property"), f.get("case"), line[7:].strip()))
    return out


def report_violation(prop, text):
    path = replay_path(prop, text)
    with open(path, "w") as f:
        f.write(text)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()


def write_evidence(prop, tier, coverage, wall, violations, level="exploration", assumptions=None):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed(), level=level, coverage=coverage, wall_s=round(wall, 2),
              violations=violations)
    if assumptions:
        ev["assumptions"] = assumptions
    tmp = os.path.join(d, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    os.rename(tmp, os.path.join(d, prop + ".json"))
