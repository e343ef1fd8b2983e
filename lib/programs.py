"""Compiling and running generated programs: a work pool, one scratch directory per check, and standalone replays."""
import os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from common import *

COMPILERS = ("g++", "clang++")
STDS = ("c++11", "c++14", "c++17", "c++20", "c++23")


class Program:
    """Files to be compiled and linked together. files: name -> text; units: the names that are compiled."""

    def __init__(self, files, units, cxx="g++", std="c++17", flags=(), args=(), link=()):
        self.files, self.units, self.cxx, self.std, self.flags, self.args, self.link = files, units, cxx, std, tuple(flags), tuple(args), tuple(link)

    def command(self, out):
        return [self.cxx, "-std=" + self.std, "-w"] + list(self.flags) + ["-I", os.path.join(REPO, "include"),
               "-I", os.path.join(VERIF, "gen"), "-I", "."] + list(self.units) + list(self.link) + ["-o", out]

    def text(self):
        t = ["compiler " + " ".join([self.cxx, "-std=" + self.std] + list(self.flags)), "units " + " ".join(self.units)] + (["link " + " ".join(self.link)] if self.link else [])
        for name in sorted(self.files):
            t.append("--- file %s ---" % name)
            t.append(self.files[name])
        return "\n".join(t)

    @staticmethod
    def parse(text):
        head, rest = text.split("\n--- file ", 1)
        comp = re.search(r"^compiler (.*)$", head, re.M).group(1).split()
        units = re.search(r"^units (.*)$", head, re.M).group(1).split()
        link = re.search(r"^link (.*)$", head, re.M)
        files = {}
        for part in ("\n--- file " + rest).split("\n--- file ")[1:]:
            name, body = part.split(" ---\n", 1)
            files[name] = body
        return Program(files, units, comp[0], comp[1][5:], comp[2:], (), link.group(1).split() if link else ())


class Result:
    def __init__(self, compiled, rc, out, blocked=False):
        self.compiled, self.rc, self.out, self.blocked = compiled, rc, out, blocked


def tool_failed(rc, out):
    """A compiler that was killed or crashed says nothing about the code."""
    return rc < 0 or "Killed" in out or "out of memory" in out or "internal compiler error" in out or "PLEASE submit a bug report" in out \
        or "cannot allocate memory" in out.lower() or "No space left" in out


class Toolbroken(Exception):
    pass


# C++11 allows nothing but one return statement in a constexpr function; later standards, and Clang as an extension, allow more
RELAXED = re.compile(r"constexpr (function|constructor)|constant expression")


class Built:
    """A compiled program in a directory of its own, which may be run any number of times."""

    def __init__(self, p, root, run=True, compile_timeout=600):
        self.p, self.dir = p, tempfile.mkdtemp(prefix="p-", dir=root)
        self.write(p.files)
        for attempt in range(3):
            c = subprocess.run(p.command("prog") if run else p.command("prog")[:-2] + ["-fsyntax-only"], cwd=self.dir, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=compile_timeout)
            self.out = c.stdout.decode("utf-8", "replace")
            if c.returncode != 0 and p.std == "c++11" and any(RELAXED.search(x) for x in self.out.splitlines()):
                # how the body of a constexpr function is written says nothing about what the library does: judge the program by the next standard
                later = Program(p.files, p.units, p.cxx, "c++14", p.flags, p.args, p.link)
                c = subprocess.run(later.command("prog") if run else later.command("prog")[:-2] + ["-fsyntax-only"], cwd=self.dir, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=compile_timeout)
                self.out = c.stdout.decode("utf-8", "replace")
            if c.returncode == 0 or not tool_failed(c.returncode, self.out):
                break
            time.sleep(1)
        else:
            raise Toolbroken(self.out[-2000:])
        self.compiled, self.rc = c.returncode == 0, c.returncode

    def write(self, files):
        for name, text in files.items():
            with open(os.path.join(self.dir, name), "w", encoding="utf-8", errors="surrogateescape") as f:
                f.write(text)

    def run(self, cpu=120, stdin=b"", args=None):
        argv = list(self.p.args) if args is None else list(args)
        try:
            r = subprocess.run(["bash", "-c", 'ulimit -t %d; exec "$@"' % cpu, "run", "./prog"] + argv, cwd=self.dir, env=sanitizer_env(),
                               input=stdin, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        except subprocess.TimeoutExpired as e:
            return Result(True, -1, (e.stdout or b"").decode("utf-8", "replace"), blocked=True)
        return Result(True, r.returncode, r.stdout.decode("utf-8", "surrogateescape"))

    def remove(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def execute(p, root, run=True, cpu=120, stdin=b"", compile_timeout=600):
    b = Built(p, root, run, compile_timeout)
    try:
        if not b.compiled:
            return Result(False, b.rc, b.out)
        if not run:
            return Result(True, 0, b.out)
        return b.run(cpu, stdin)
    finally:
        b.remove()


def pool_map(f, items, workers=JOBS):
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(f, items))


def scratch(prop):
    d = os.path.join(BUILD, prop)
    os.makedirs(d, exist_ok=True)
    return tempfile.mkdtemp(prefix="w-", dir=d)


def verdict(prop, tier, t0, cov, text, level="exploration", assumptions=None):
    """Reports a failing replay text (or None) and writes the evidence. Returns the exit code."""
    code = 0
    if text is not None:
        case = hashlib.sha256(text.split("--- case ---")[-1].encode("utf-8", "surrogateescape")).hexdigest()[:16]
        for p, k, line in known_findings():
            if p == prop and k == case:
                print("KNOWN-FINDING: " + line)
                break
        else:
            report_violation(prop, text)
            code = 1
    write_evidence(prop, tier, cov, time.time() - t0, code, level=level, assumptions=assumptions)
    return code
