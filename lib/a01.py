"""A01: argument lists from the real command line and from memory, initialised and asked for from several units."""
import collections, random, time
from programs import *
from h01 import HEADERS

PIECES = [b"", b" ", b"-", b"--flag", b"--key=value", b"a", b"plain text", b"\xc3\xa9", b"\xff\xfe", b"\xf0\x9f\x98\x80", b"%s%n", b"two\nlines", b"\t", b"'\"\\", b"$HOME `x`",
          b"*", b"\x01\x7f", b"\xed\xa0\x80", b"{}", b"=" * 3, b"x" * 300, b"end "]


def argument(r):
    k = r.random()
    if k < 0.35:
        return r.choice(PIECES)
    if k < 0.7:
        return b"".join(r.choice(PIECES) for _ in range(r.randint(1, 4)))
    if k < 0.9:
        return bytes(r.randint(1, 255) for _ in range(r.choice([1, 2, 7, 15, 16, 17, 31, 63, 64])))
    if k < 0.97:
        return bytes([r.randint(1, 255)]) * r.choice([255, 256, 257, 1000, 4095, 4096])
    return bytes([r.randint(1, 255)]) * r.choice([65535, 65536, 100000])


def arguments(r):
    n = r.choice([0, 0, 1, 1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 100] + ([1000] if r.random() < 0.2 else []))
    a = [argument(r) for _ in range(n)]
    if n > 1 and r.random() < 0.3:
        a[r.randrange(n)] = r.choice(a)
    return a


class Case:
    def __init__(self, r, units):
        self.real = arguments(r)
        while sum(len(x) + 10 for x in self.real) > 900000:
            self.real.pop()
        self.steps = []        # (unit, text)
        u = lambda: r.randrange(units)
        prepared = 0
        touched = False
        for _ in range(r.choice([1, 2, 3, 4, 6, 10])):
            k = r.random()
            if k < 0.12:
                self.steps.append((u(), "plain"))
            elif k < 0.3 and not touched:
                self.steps.append((u(), "real"))
            elif k < 0.5:
                if not prepared or r.random() < 0.3:
                    a = arguments(r)[:40]
                    prepared += len(a)
                    self.steps.append((u(), "prepare" + "".join(" h" + x.hex() for x in a)))
                n = prepared if r.random() < 0.7 else r.randint(0, prepared)
                self.steps.append((u(), "memory %d" % n))
            elif k < 0.6:
                self.steps.append((u(), "scramble"))
            elif k < 0.7:
                self.steps.append((u(), "free"))
                prepared = 0
            elif k < 0.77:
                self.steps.append((u(), "forget"))
                prepared = 0
            elif k < 0.84 and not touched:
                self.steps.append((u(), "overwrite"))
                touched = True
            else:
                self.steps.append((u(), "show"))
        self.steps.append((u(), "show"))
        self.early = r.random() < 0.15 and units > 1       # the first step happens before main
        if self.early and (self.steps[0][1].startswith(("real", "overwrite"))):
            self.early = False

    def plan(self, steps=None):
        steps = self.steps if steps is None else steps
        return ("early\n" if self.early else "") + "".join("%d %s\n" % s for s in steps)

    def text(self, steps=None, real=None):
        real = self.real if real is None else real
        return "arguments:%s\n%s" % ("".join(" h" + a.hex() for a in real), self.plan(steps))


def expected(steps, real):
    out, args, memory, inited = [], None, [], False
    for _, s in steps:
        w = s.split()
        if w[0] in ("plain", "real", "memory"):
            if inited:
                out.append("refused")
                continue
            inited = True
            args = [] if w[0] == "plain" else [b"./prog"] + real if w[0] == "real" else memory[:int(w[1])]
            args = list(args)
            out.append("made 1")
        elif w[0] == "prepare":
            memory = memory + [bytes.fromhex(x[1:]) for x in w[1:]]
        elif w[0] == "scramble":
            memory = [b"#" * len(m) for m in memory]
        elif w[0] == "free":
            memory = []
        elif w[0] == "forget":
            memory = [b"other"] * len(memory)
        elif w[0] == "show":
            if args is None:
                out.append("none")
            else:
                out.append("args %d" % len(args) + "".join(" h" + a.hex() for a in args))
                out.append("info 1")
    return out


def valid(steps):
    """memory is not asked for more than it holds, the real arguments are not used after they were overwritten"""
    held, gone = 0, False
    for _, s in steps:
        w = s.split()
        if w[0] == "prepare":
            held += len(w) - 1
        elif w[0] in ("free", "forget"):
            held = 0
        elif w[0] == "memory" and int(w[1]) > held:
            return False
        elif w[0] == "overwrite":
            gone = True
        elif w[0] == "real" and gone:
            return False
    return True


class Prog:
    def __init__(self, seed_text):
        r = random.Random(seed_text)
        self.cxx, self.std = r.choice(COMPILERS), r.choice(STDS)
        self.flags = r.choice([(), ("-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-g1")])
        self.units = r.choice([1, 2, 3])
        self.headers = [r.choice([h for h in HEADERS if h not in ("Algorithms", "Caitlyn")]) for _ in range(self.units)]

    def program(self, plan=""):
        files = {"plan.txt": plan}
        for k in range(self.units):
            t = "#include <Caitlyn/%s>\n#include <stdlib.h>\n#include \"app_unit.h\"\n" % self.headers[k]
            t += "void unit%d(const std::string& s) { step(s); }\n" % k
            if k == self.units - 1:
                t += """Shared& shared() { static Shared s = Shared(); return s; }
static int early()
{
    std::ifstream in("plan.txt");
    std::string line;
    if (std::getline(in, line) && line == "early" && std::getline(in, line)) { unit%d(line); }
    return 0;
}
static int before_main = early();
""" % k
            if k == 0:
                t += "".join("void unit%d(const std::string& s);\n" % j for j in range(1, self.units))
                t += """int main(int argc, char** argv)
{
    shared().argc = argc;
    shared().argv = argv;
    std::ifstream in("plan.txt");
    std::string line;
    while (std::getline(in, line))
    {
        if (line == "early") { std::getline(in, line); continue; }
        switch (line[0])
        {
%s        }
    }
    std::printf("end\\n");
    return 0;
}
""" % "".join("        case '%d': unit%d(line); break;\n" % (j, j) for j in range(self.units))
            files["u%d.cpp" % k] = t
        return Program(files, ["u%d.cpp" % k for k in range(self.units)], self.cxx, self.std, self.flags, link=("-pthread",))


def attempt(built, case, steps, real):
    built.write({"plan.txt": case.plan(steps)})
    res = built.run(args=[b for b in real])
    if res.blocked:
        return None
    want = expected(steps, real) + ["end"]
    got = res.out.split("\n")[:-1]
    if got != want or res.rc != 0:
        for i in range(max(len(got), len(want))):
            a, b = got[i] if i < len(got) else "nothing", want[i] if i < len(want) else "nothing"
            if a != b:
                return "answer %d: got %s, expected %s (exit status %d)" % (i, a[:300], b[:300], res.rc)
        return "exit status %d" % res.rc
    return None


def shrink(built, case):
    steps, real = list(case.steps), list(case.real)
    again = True
    while again:
        again = False
        for i in range(len(steps)):
            t = steps[:i] + steps[i + 1:]
            if t and valid(t) and not (case.early and i == 0) and attempt(built, case, t, real):
                steps, again = t, True
                break
        size = max(1, len(real) // 2)
        i = 0
        while i < len(real):
            t = real[:i] + real[i + size:]
            if attempt(built, case, steps, t):
                real, again = t, True
            else:
                i += size
        for i, a in enumerate(real):
            if len(a) > 1 and attempt(built, case, steps, real[:i] + [a[:len(a) // 2]] + real[i + 1:]):
                real, again = real[:i] + [a[:len(a) // 2]] + real[i + 1:], True
    return steps, real


BUDGET = "40 programs of 130 runs quick, 240 of 700 thorough"
RULE = ("0-1000 arguments of any bytes but NUL from the real command line and lists in memory that are changed and freed afterwards, with up to "
        "11 steps (3 ways to initialise, also before main) spread over 1-3 units; non-trivial: a refused initialisation or three "
        "or more arguments")


def check(tier):
    t0 = time.time()
    n, runs = (40, 130) if tier == "quick" else (240, 700)
    root = scratch("A01")
    try:
        state = dict(stop=False)

        def work(k):
            if state["stop"]:
                return None
            prog = Prog("A01 %d %d" % (seed(), k))
            stats = dict(total=0, distinct=set(), kinds=collections.Counter(), sample="")
            b = Built(prog.program(), root)
            try:
                if not b.compiled:
                    state["stop"] = True
                    return prog, None, "the program does not compile\n" + "\n".join(x for x in b.out.splitlines() if "error" in x or "multiple" in x)[:1500], stats
                for j in range(runs):
                    case = Case(random.Random("A01 case %d %d %d" % (seed(), k, j)), prog.units)
                    msg = attempt(b, case, case.steps, case.real)
                    stats["total"] += 1
                    want = expected(case.steps, case.real)
                    if "refused" in want or any(w.startswith("args") and len(w.split()) > 3 for w in want):
                        stats["distinct"].add(hash(case.text()))
                    for s in case.steps:
                        stats["kinds"][s[1].split()[0]] += 1
                    for w in want:
                        if w.startswith("args"):
                            stats["kinds"]["shown with %s arguments" % ("no" if w == "args 0" else "1-4" if len(w.split()) < 7 else "more")] += 1
                    if case.early:
                        stats["kinds"]["before main"] += 1
                    if j == 5:
                        stats["sample"] = case.text()[:300]
                    if msg:
                        state["stop"] = True
                        return prog, case, msg, stats
                return prog, None, None, stats
            finally:
                b.remove()
        text, total, distinct, kinds, samples = None, 0, 0, collections.Counter(), []
        for got in pool_map(work, range(n)):
            if got is None:
                continue
            prog, case, msg, stats = got
            total += stats["total"]
            distinct += len(stats["distinct"])
            kinds.update(stats["kinds"])
            kinds[prog.cxx + " " + prog.std] += stats["total"]
            if len(samples) < 8 and stats["sample"]:
                samples.append(stats["sample"])
            if msg and text is None:
                if case is None:
                    if all(not Built(prog.program(), root).compiled for _ in range(2)):
                        text = "property A01\n%s\n\n--- case ---\n--- program ---\n%s\n" % (msg, prog.program().text())
                    continue
                b = Built(prog.program(), root)
                if all(attempt(b, case, case.steps, case.real) for _ in range(2)):
                    steps, real = shrink(b, case)
                    msg = attempt(b, case, steps, real) or msg
                    text = "property A01\n%s\nreplay: python3 check.py --replay <this file> (run it with the arguments below for the same answers)\n\n" \
                        "--- case ---\n%s--- program ---\n%s\n" % (msg, case.text(steps, real), prog.program(case.plan(steps)).text())
                b.remove()
        cov = dict(evaluations=total, distinct_nontrivial=distinct, samples=samples, classes=dict(kinds),
                   rule=RULE)
        return verdict("A01", tier, t0, cov, text)
    finally:
        shutil.rmtree(root, ignore_errors=True)
