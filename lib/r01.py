"""R01: generated test programs whose tests pass, fail and throw as planned; the runner's account against the plan."""
import collections, random, time
from programs import *

GOOD = ["pass", "PASS", "holds", "caught", "prints"]
BAD = ["true", "false", "eq", "deep", "FAIL", "message", "streq", "printsfail", "runtime", "odd", "base", "alloc", "range", "int", "text", "string",
       "object", "nested"]
NAMES = ["A", "B", "Suite", "suite", "Math", "X1", "_u", "Long" * 12, "AB", "A_B", "B_C", "C", "Zz"]
TEXTS = [b"", b"x", b"plain text", b"\xff\xfe", b"\xc3", b"caf\xc3\xa9", b"\xed\xa0\x80", b"%s %d {} {0}", b"two\nlines", b"t\tab", b"q" * 3000, b"\x01\x02",
         b"\xf0\x9f\x98\x80"]
FREE = ["A", "B", "Suite", "", " ", "with space", "caf\u00e9", "\U0001f600", "a.b", "Math<int>", "n::G", "%d", "{}", "[x]", "very " * 40]


class Test:
    def __init__(self, id, suite, name, fixture=None):
        self.id, self.suite, self.name, self.fixture = id, suite, name, fixture

    def shown(self):
        return self.suite + "." + self.name


def hexed(b):
    return "h" + (b if isinstance(b, bytes) else b.encode()).hex()


class Prog:
    """The compiled part: tests that register themselves, spread over translation units."""

    def __init__(self, seed_text):
        r = random.Random(seed_text)
        self.cxx, self.std = r.choice(COMPILERS), r.choice(STDS)
        self.flags = r.choice([(), ("-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-g1")])
        self.tests, self.units = [], []
        seen, lines = set(), {}
        count = r.choice([0, 1, 2, 5, 12, 25, 40])
        units = r.choice([1, 1, 2, 3])
        for u in range(units):
            self.units.append([])
        for i in range(count):
            u = r.randrange(units)
            k = r.random()
            if k < 0.6:
                for _ in range(30):
                    s, n = r.choice(NAMES), r.choice(NAMES) + r.choice(["", "", "1", "2", str(i)])
                    if s + "_" + n not in seen:
                        break
                else:
                    continue
                seen.add(s + "_" + n)
                t = Test(i, s, n)
            else:
                f = r.choice(["Fresh<int>", "Fresh<char>", "deep::Fixture", "Plainest", "Prepared<0>", "Prepared<1>", "Prepared<2>", "Math"])
                n = r.choice(NAMES) + r.choice(["", "", "1", str(i)])
                if f == "Math" and ("Math_" + n in seen):
                    continue
                if (f, n) in lines:
                    continue
                lines[(f, n)] = 1
                t = Test(i, f, n, f)
            t.space = r.random() < 0.15
            self.tests.append(t)
            self.units[u].append(t)

    def program(self, plan=""):
        files = {}
        for u, ts in enumerate(self.units):
            text = '#include "runner%s.h"\n' % ("_main" if u == 0 else "")
            text += "namespace deep { struct Fixture : Fresh<long> {}; }\nstruct Plainest { void use(int id) { act(id); } };\nstruct Math : Plainest {};\n"
            for t in ts:
                body = "use(%d);" % t.id if t.fixture else "act(%d);" % t.id
                one = "%s(%s, %s)\n{\n    %s\n}\n" % ("TEST_F" if t.fixture else "TEST", t.suite, t.name, body)
                text += "namespace inner\n{\n%s}\n" % one if t.space else one
            files["u%d.cpp" % u] = text
        files["plan.txt"] = plan
        return Program(files, ["u%d.cpp" % u for u in range(len(self.units))], self.cxx, self.std, self.flags)


class Plan:
    """What every test does in every run, and which tests are registered between the runs."""

    def __init__(self, prog, r):
        self.steps = []      # ("deed", id, kind, bytes) ("add", id, suite, name) ("run",)
        slots = list(range(1000, 1300))
        r.shuffle(slots)
        for k in range(r.choice([1, 1, 1, 2, 3])):
            extra = r.choice([0, 0, 1, 3, 10]) if r.random() > 0.02 else r.choice([255, 256, 257])
            added = []
            for _ in range(min(extra, len(slots))):
                id = slots.pop()
                added.append(id)
                one = r.random()
                if one < 0.5:
                    s, n = r.choice(FREE), r.choice(FREE)
                elif prog.tests:
                    t = r.choice(prog.tests)
                    s, n = (t.suite, t.name) if one < 0.7 else (t.suite, r.choice(FREE))
                else:
                    s, n = "only", "n%d" % id
                self.steps.append(("add", id, s, n))
            style = r.random()
            chance = 0.0 if style < 0.25 else 1.0 if style < 0.35 or extra > 200 else r.choice([0.05, 0.3, 0.7])
            ids = [t.id for t in prog.tests] + [s[1] for s in self.steps if s[0] == "add"]
            lone = r.choice(ids) if ids and style >= 0.9 else None
            if lone is not None:
                chance = 0.0
            for id in ids:
                bad = r.random() < chance or id == lone
                kind = r.choice(BAD if bad else GOOD)
                if kind != "pass" or k:
                    self.steps.append(("deed", id, kind, r.choice(TEXTS)))
            for n in range(3):
                if r.random() < 0.1 * (chance > 0):
                    self.steps.append(("deed", 900 + n, r.choice(["runtime", "int", "odd"]), b"x"))
            self.steps.append(("run",))

    def text(self, steps=None):
        out = []
        for s in self.steps if steps is None else steps:
            if s[0] == "deed":
                out.append("deed %d %s %s" % (s[1], s[2], hexed(s[3])))
            elif s[0] == "add":
                out.append("add %d %s %s" % (s[1], hexed(s[2]), hexed(s[3])))
            else:
                out.append("run")
        return "\n".join(out) + "\n"


def expectations(prog, steps):
    """per run: list of (shown, suite, verdict), counts, built"""
    out, deeds, tests = [], {}, list(prog.tests)
    for s in steps:
        if s[0] == "deed":
            deeds[s[1]] = s[2]
        elif s[0] == "add":
            tests.append(Test(s[1], s[2], s[3]))
        else:
            rows, counts, built = [], {}, 0
            for t in tests:
                stop = None
                if t.fixture and t.fixture.startswith("Prepared") and 900 + int(t.fixture[9]) in deeds:
                    stop = 900 + int(t.fixture[9])
                    counts[stop] = counts.get(stop, 0) + 1
                else:
                    counts[t.id] = counts.get(t.id, 0) + 1
                if t.fixture and (t.fixture.startswith("Fresh") or t.fixture == "deep::Fixture"):
                    built += 1
                ok = stop is None and deeds.get(t.id, "pass") in GOOD
                rows.append((t.shown(), t.suite, ok))
            out.append((rows, counts, built))
    return out


def cut(line, head, tail=False):
    if not line.startswith(head):
        return None
    rest = line[len(head):]
    if tail:
        m = re.match(r"(.*) \(\d+ ms\)$", rest, re.S)
        return m.group(1) if m else None
    return rest


def judge(prog, steps, res):
    """None if the account is right, else what is wrong with it"""
    want = expectations(prog, steps)
    if res.blocked:
        return None
    parts = res.out.split("\n@@ result ")
    if "@@ end" not in res.out:
        return "the program ended before its time (exit status %d)" % res.rc
    if "@@ survived" in res.out:
        return "a failed assertion did not stop its test"
    if "@@ stale" in res.out:
        return "a test found the fixture of another"
    body = parts[0]
    last = 0
    for i, (rows, counts, built) in enumerate(want):
        tail = parts[i + 1].split("\n")
        rc = int(tail[0])
        last = rc
        got = dict((int(x.split()[2]), int(x.split()[3])) for x in tail if x.startswith("@@ count "))
        if got != counts:
            return "run %d: tests ran %s times, expected %s" % (i + 1, sorted(got.items()), sorted(counts.items()))
        if "@@ built %d alive 0" % built not in tail:
            return "run %d: fixtures %s, expected %d built and none alive" % (i + 1, [x for x in tail if x.startswith("@@ built")], built)
        failed = [x for x in rows if not x[2]]
        if (rc != 0) != bool(failed):
            return "run %d: the runner returned %d with %d failures" % (i + 1, rc, len(failed))
        lines = (body if i == 0 else parts[i].split("\n", 1)[1]).split("\n")
        starts, ok, bad, listed, running = (collections.Counter() for _ in range(5))
        current, first, passed, lost = None, None, None, None
        for line in lines:
            x = cut(line, "[ RUN      ] ")
            if x is not None:
                if current is not None:
                    return "run %d: no verdict for %s" % (i + 1, current)
                starts[x] += 1
                current = x
                continue
            for head, c in (("[       OK ] ", ok), ("[     FAIL ] ", bad)):
                x = cut(line, head, True)
                if x is not None:
                    if x != current:
                        return "run %d: verdict for %s while %s ran" % (i + 1, x, current)
                    c[x] += 1
                    current = None
            m = re.match(r"\[==========\] Running (\d+) tests? from (\d+) test cases?\.$", line)
            if m:
                first = (int(m.group(1)), int(m.group(2)))
            m = re.match(r"\[  PASSED  \] (\d+) tests?\.$", line)
            if m:
                passed = int(m.group(1))
            m = re.match(r"\[  FAILED  \] (\d+) tests?, listed below:$", line)
            if m:
                lost = int(m.group(1))
            elif line.startswith("[  FAILED  ] "):
                listed[line[len("[  FAILED  ] "):]] += 1
        # the texts of names hold no line breaks, so every line is whole
        want_ok = collections.Counter(x[0] for x in rows if x[2])
        want_bad = collections.Counter(x[0] for x in failed)
        if starts != want_ok + want_bad:
            return "run %d: announced %s" % (i + 1, difference(starts, want_ok + want_bad))
        if ok != want_ok or bad != want_bad:
            return "run %d: reported as passed: %s; as failed: %s" % (i + 1, difference(ok, want_ok), difference(bad, want_bad))
        if listed != want_bad:
            return "run %d: listed as failed: %s" % (i + 1, difference(listed, want_bad))
        if first is not None and first != (len(rows), len(set(x[1] for x in rows))):
            return "run %d: announced %s tests and suites, there are %s" % (i + 1, first, (len(rows), len(set(x[1] for x in rows))))
        if (passed or 0) != len(rows) - len(failed) or (lost or 0) != len(failed):
            return "run %d: totals passed %s failed %s, expected %d and %d" % (i + 1, passed, lost, len(rows) - len(failed), len(failed))
        m = re.search(r"^(\d+) FAILED TEST", "\n".join(lines), re.M)
        if m and int(m.group(1)) != len(failed):
            return "run %d: announced %s failed tests of %d" % (i + 1, m.group(1), len(failed))
    if (res.rc == 0) != (last == 0):
        return "the exit status is %d after the runner returned %d" % (res.rc, last)
    return None


def difference(got, want):
    return "missing %s, too many %s" % (list((want - got).items())[:5], list((got - want).items())[:5])


def try_plan(built, prog, plan_steps, plan):
    built.write({"plan.txt": plan.text(plan_steps)})
    return judge(prog, plan_steps, built.run())


def shrink(built, prog, plan, root):
    steps = list(plan.steps)
    again = True
    size = len(steps) // 2
    while size >= 1:
        i = 0
        while i < len(steps):
            trial = steps[:i] + steps[i + size:]
            gone = set(s[1] for s in steps[i:i + size] if s[0] == "add")
            trial = [s for s in trial if not (s[0] == "deed" and s[1] in gone)]
            if any(s[0] == "run" for s in trial) and try_plan(built, prog, trial, plan):
                steps = trial
            else:
                i += size
        size //= 2
    # drop the compiled tests that are not needed
    chunk, deadline = len(prog.tests), time.time() + 120
    while chunk >= 1:
        i = 0
        while i < len(prog.tests) and time.time() < deadline:
            kept, units = prog.tests, prog.units
            gone = prog.tests[i:i + chunk]
            prog.tests = [x for x in kept if x not in gone]
            prog.units = [[x for x in u if x not in gone] for u in units]
            left = [s for s in steps if not (s[0] == "deed" and s[1] in [t.id for t in gone])]
            b = Built(prog.program(), root)
            if b.compiled and try_plan(b, prog, left, plan):
                steps = left
            else:
                prog.tests, prog.units = kept, units
                i += chunk
            b.remove()
        chunk //= 2
    return steps


BUDGET = "64 programs of 45 plans quick, 400 of 150 thorough"
RULE = ("a compiled program of 0-40 tests (plain, fixture, in namespaces, over 1-3 translation units) run with a plan: what each test "
        "does (23 ways of passing and failing), tests added while running, 1-3 runs; non-trivial: a run with both passing and "
        "failing tests")


def check(tier):
    t0 = time.time()
    n, plans = (64, 45) if tier == "quick" else (400, 150)
    root = scratch("R01")
    try:
        state = dict(stop=False)

        def work(k):
            if state["stop"]:
                return None
            prog = Prog("R01 %d %d" % (seed(), k))
            stats = dict(total=0, distinct=set(), kinds=collections.Counter(), sample="")
            b = Built(prog.program(), root)
            try:
                if not b.compiled:
                    state["stop"] = True
                    return prog, None, "the program does not compile\n" + "\n".join(x for x in b.out.splitlines() if "error" in x or "multiple" in x)[:1500], stats
                for j in range(plans):
                    plan = Plan(prog, random.Random("R01 plan %d %d %d" % (seed(), k, j)))
                    msg = try_plan(b, prog, plan.steps, plan)
                    stats["total"] += 1
                    ex = expectations(prog, plan.steps)
                    if any(len(set(x[2] for x in rows)) == 2 for rows, _, _ in ex):
                        stats["distinct"].add(plan.text())
                    for s in plan.steps:
                        if s[0] == "deed":
                            stats["kinds"][s[2]] += 1
                    stats["kinds"]["runs with %s" % ("no failure" if all(x[2] for x in ex[-1][0]) else "failures")] += 1
                    if j == 3:
                        stats["sample"] = plan.text()[:400]
                    if msg:
                        state["stop"] = True
                        return prog, plan, msg, stats
                return prog, None, None, stats
            finally:
                b.remove()
        text, total, distinct, kinds, samples = None, 0, 0, collections.Counter(), []
        for got in pool_map(work, range(n)):
            if got is None:
                continue
            prog, plan, msg, stats = got
            total += stats["total"]
            distinct += len(stats["distinct"])
            kinds.update(stats["kinds"])
            kinds[prog.cxx + " " + prog.std] += stats["total"]
            if len(samples) < 8 and stats["sample"]:
                samples.append(stats["sample"])
            if msg and text is None:
                if plan is None:
                    again = all(not Built(prog.program(), root).compiled for _ in range(2))
                    case, p = "", prog.program()
                else:
                    b = Built(prog.program(), root)
                    again = all(try_plan(b, prog, plan.steps, plan) for _ in range(2))
                    steps = shrink(b, prog, plan, root) if again else plan.steps
                    b.remove()
                    b = Built(prog.program(), root)
                    msg = try_plan(b, prog, steps, plan) or msg
                    case, p = plan.text(steps), prog.program(plan.text(steps))
                if again:
                    text = "property R01\n%s\nreplay: python3 check.py --replay <this file>\n\n--- case ---\n%s--- program ---\n%s\n" % (
                        msg, case, p.text())
        cov = dict(evaluations=total, distinct_nontrivial=distinct, samples=samples, classes=dict(kinds),
                   rule=RULE)
        return verdict("R01", tier, t0, cov, text)
    finally:
        shutil.rmtree(root, ignore_errors=True)
