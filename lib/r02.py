"""R02: generated assertions over operands whose relation is known; what the runner reports and what was evaluated."""
import collections, math, random, time
from programs import *

REL = {"EQ": "==", "NE": "!=", "LT": "<", "LE": "<=", "GT": ">", "GE": ">=", "EQ_PRINTABLE": "=="}
OPS = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b,
       ">=": lambda a, b: a >= b}


def c_string(b):
    return '"' + "".join("\\%03o" % x if x < 32 or x > 126 or x in b'"\\?' else chr(x) for x in b) + '"'


INTS = {"int": ("int", -2 ** 31 + 1, 2 ** 31 - 1), "long long": ("long long", -2 ** 63 + 1, 2 ** 63 - 1), "unsigned": ("unsigned", 0, 2 ** 32 - 1),
        "unsigned long": ("unsigned long", 0, 2 ** 64 - 1), "short": ("short", -2 ** 15 + 1, 2 ** 15 - 1), "unsigned char": ("unsigned char", 0, 255),
        "signed char": ("signed char", -127, 127)}


def long_pair(r):
    """two long texts, equal or different at one place or in length only"""
    a = bytearray(r.choice(b"abcxyz") for _ in range(r.choice([40, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 4095, 4096, 4097])))
    b = bytearray(a)
    k = r.random()
    if k < 0.4:
        b[r.choice([0, len(b) // 2, len(b) - 1, r.randrange(len(b))])] = r.choice(b"ABC")
    elif k < 0.55:
        b += b"z"
    elif k < 0.65:
        del b[-1:]
    a, b = bytes(a), bytes(b)
    return (a, b) if r.random() < 0.5 else (b, a)


def int_value(r, lo, hi):
    k = r.random()
    if k < 0.4:
        return r.randint(max(lo, -3), 3)
    if k < 0.7:
        return r.choice([lo, lo + 1, hi - 1, hi, hi // 2, hi // 2 + 1, min(hi, 2 ** 31), min(hi, 2 ** 31 - 1)])
    return r.randint(lo, hi)


def int_text(t, v):
    suffix = {"int": "", "long long": "LL", "unsigned": "U", "unsigned long": "UL"}.get(t, "")
    return "static_cast<%s>(%d%s)" % (t, v, suffix)


DOUBLES = [("0.0", 0.0), ("-0.0", -0.0), ("1.5", 1.5), ("-2.25", -2.25), ("1e300", 1e300), ("1e-300", 1e-300), ("std::numeric_limits<double>::infinity()", math.inf),
           ("-std::numeric_limits<double>::infinity()", -math.inf), ("std::numeric_limits<double>::quiet_NaN()", math.nan),
           ("std::numeric_limits<double>::denorm_min()", 5e-324), ("1.0000000000000002", 1.0000000000000002), ("1.0", 1.0)]
STRINGS = [b"", b"a", b"b", b"ab", b"abc", b"A", b"\xc3\xa9", b"\xff", b"%s", b"two\nlines", b"a" * 100, b"a" * 99 + b"b", b'"q"']


# what FAIL_MESSAGE() is given; one text or several, some of them empty
MESSAGES = ['"text"', "3 << 4", 'std::string("x")', "'c' << 1.5", '"\\377"', '""', "std::string()", 'std::string() << ""', "Caitlyn::String()", '"" << "later"', "0", "false",
            "'\\0'", "Caitlyn::String(\"said\") << 1", "'\\n'"]


class Operand:
    """type, text of the value, the value for Python (or None), needs: declared variables"""

    def __init__(self, type, text, value, plain=True):
        self.type, self.text, self.value, self.plain = type, text, value, plain


def operands(r, rel, std):
    """two operands and whether the relation holds between them"""
    while True:
        k = r.choice(["int", "int", "double", "string", "String", "mixed", "pointer", "bool", "char", "enum", "told", "only", "pinned", "null", "uptr"])
        if k == "int":
            t = r.choice(list(INTS))
            _, lo, hi = INTS[t]
            a = int_value(r, lo, hi)
            b = a if r.random() < 0.3 else min(hi, max(lo, a + r.choice([-1, 1]))) if r.random() < 0.4 else int_value(r, lo, hi)
            return Operand(t, int_text(t, a), a), Operand(t, int_text(t, b), b), OPS[rel](a, b)
        if k == "double":
            (ta, a), (tb, b) = r.choice(DOUBLES), r.choice(DOUBLES)
            if r.random() < 0.25:
                tb, b = ta, a
            return Operand("double", ta, a), Operand("double", tb, b), OPS[rel](a, b)
        if k in ("string", "String", "mixed"):
            a = r.choice(STRINGS)
            b = a if r.random() < 0.35 else r.choice(STRINGS)
            if r.random() < 0.12:
                a, b = long_pair(r)
            if k == "String":
                if rel not in ("==", "!=") or b"\xff" in (a, b):
                    continue
                return Operand("Caitlyn::String", "Caitlyn::String(%s)" % c_string(a), None), Operand("Caitlyn::String", "Caitlyn::String(%s)" % c_string(b), None), \
                    OPS[rel](a, b)
            left = Operand("std::string", "std::string(%s)" % c_string(a), None)
            right = Operand("std::string", "std::string(%s)" % c_string(b), None)
            if k == "mixed":
                if r.random() < 0.5:
                    left = Operand("const char*", c_string(a), None)
                else:
                    right = Operand("const char*", c_string(b), None)
            return left, right, OPS[rel](a, b)
        if k == "pointer":
            a, b = r.randrange(4), r.randrange(4)
            return Operand("int*", "&spots[%d]" % a, None), Operand("int*", "&spots[%d]" % b, None), OPS[rel](a, b)
        if k == "bool":
            a, b = r.random() < 0.5, r.random() < 0.5
            return Operand("bool", str(a).lower(), a), Operand("bool", str(b).lower(), b), OPS[rel](a, b)
        if k == "char":
            a, b = r.choice(b"aAzZ09 ~"), r.choice(b"aAzZ09 ~")
            return Operand("char", "char(%d)" % a, None), Operand("char", "char(%d)" % b, None), OPS[rel](a, b)
        if k == "enum":
            a, b = r.randint(1, 3), r.randint(1, 3)
            return Operand("Color", "Color(%d)" % a, None), Operand("Color", "Color(%d)" % b, None), OPS[rel](a, b)
        if k == "told":
            bits = [r.randint(0, 1) for _ in range(6)]
            t = "Told{%s}" % ", ".join(map(str, bits))
            return Operand("Told", "(%s)" % t, None), Operand("Told", "(Told{0, 1, 0, 1, 0, 1})", None), bool(bits[["==", "!=", "<", "<=", ">", ">="].index(rel)])
        if k == "only":
            a, b = r.randint(0, 2), r.randint(0, 2)
            n = "Only" + {"==": "Eq", "!=": "Ne", "<": "Lt", "<=": "Le", ">": "Gt", ">=": "Ge"}[rel]
            return Operand(n, "(%s{%d})" % (n, a), None), Operand(n, "(%s{%d})" % (n, b), None), OPS[rel](a, b)
        if k == "pinned":
            a, b = r.randint(0, 2), r.randint(0, 2)
            return Operand("Pinned", "Pinned(%d)" % a, None, False), Operand("Pinned", "Pinned(%d)" % b, None, False), OPS[rel](a, b)
        if k == "null" and rel in ("==", "!=") and std >= "c++17":
            i = r.randrange(5)
            p = "static_cast<int*>(nullptr)" if i == 4 else "&spots[%d]" % i
            return Operand("int*", p, None), Operand("std::nullptr_t", "nullptr", None), OPS[rel](i == 4, True)
        if k == "uptr" and rel in ("==", "!="):
            a = r.random() < 0.5
            return Operand("std::shared_ptr<int>", "std::shared_ptr<int>(%s)" % ("new int(1)" if a else ""), None, False), \
                Operand("std::shared_ptr<int>", "std::shared_ptr<int>()", None, False), OPS[rel](a, False)


class Step:
    """one assertion in a test"""

    def __init__(self, r, test, step, std):
        self.test, self.step = test, step
        self.macro = r.choice(["TRUE", "FALSE", "STREQ", "FAIL", "PASS", "MESSAGE"] + 2 * ["TRUE", "FALSE", "STREQ"] + 4 * list(REL))
        self.context = r.choice(["plain", "plain", "ifelse", "ifelse", "loop", "switch", "lambda", "helper", "nested", "catchint", "dowhile"])
        self.decls = ""
        self.counted = set()
        self.again = False          # operands are looked at again for the message
        if self.macro in REL:
            for _ in range(50):
                a, b, ok = operands(r, REL[self.macro], std)
                if ok or r.random() < 0.25:
                    break
            self.ok = ok
            left, right = self.form(r, a, 1), self.form(r, b, 2)
            self.call = "ASSERT_%s(%s, %s);" % (self.macro, left, right)
            self.again = not ok
            self.kind = a.type
        elif self.macro in ("TRUE", "FALSE"):
            self.ok = r.random() < 0.8
            v = self.ok == (self.macro == "TRUE")
            a = r.choice([Operand("bool", str(v).lower(), v), Operand("int", str(int(v) * r.choice([1, -1, 256, 65536])), None),
                          Operand("int*", "static_cast<int*>(nullptr)" if not v else "&spots[0]", None),
                          Operand("Truth", "(Truth{%s})" % str(v).lower(), None), Operand("double", "0.5" if v else "0.0", None)])
            k = r.random()
            if k < 0.3 and a.type == "bool":
                a = Operand("bool", r.choice(["1 == 1 || spots[0] == 7", "spots[0] == 1 && spots[1] == 2", "!false"]) if v else
                            r.choice(["1 == 2 || spots[0] == 7", "spots[0] == 1 && spots[1] == 3", "!true"]), None, False)
                self.call = "ASSERT_%s(%s);" % (self.macro, a.text)
            else:
                self.call = "ASSERT_%s(%s);" % (self.macro, self.form(r, a, 1))
            self.kind = a.type
        elif self.macro == "STREQ":
            while True:
                a = r.choice(STRINGS + [None])
                b = a if r.random() < 0.5 else r.choice(STRINGS + [None])
                if a == b or r.random() < 0.25:
                    break
            if r.random() < 0.12:
                a, b = long_pair(r)
            self.ok = a == b
            text = []
            for which, x in ((1, a), (2, b)):
                o = Operand("const char*", "nullptr" if x is None else c_string(x), None)
                if x is not None and r.random() < 0.3:
                    text.append("std::string(%s).c_str()" % c_string(x))
                elif x is not None and r.random() < 0.2:
                    v = "s%d_%d" % (self.step, which)
                    self.decls += "    char %s[] = %s;\n" % (v, c_string(x))
                    text.append(v)
                else:
                    text.append(self.form(r, o, which))
            self.call = "ASSERT_STREQ(%s, %s);" % tuple(text)
            self.kind = "null" if a is None or b is None else "text"
        elif self.macro == "PASS":
            self.ok, self.call, self.kind = True, "PASS();", ""
        elif self.macro == "FAIL":
            if r.random() < 0.5:
                self.ok, self.call, self.kind = False, "FAIL();", ""
            else:
                self.ok, self.call, self.kind = True, "PASS();", ""
                self.macro = "PASS"
        else:
            if r.random() < 0.5:
                self.ok, self.call, self.kind = False, "FAIL_MESSAGE() << %s;" % r.choice(MESSAGES), ""
            else:
                self.ok, self.call, self.kind = True, "PASS();", ""
                self.macro = "PASS"

    def form(self, r, o, which):
        """one way of writing the operand"""
        id = "%d, %d, %d" % (self.test, self.step, which)
        if not o.plain:
            if o.type == "Pinned" and r.random() < 0.5:
                v = "p%d_%d" % (self.step, which)
                self.decls += "    const Pinned %s(%s);\n" % (v, o.text[7:-1])
                return v
            return o.text
        k = r.random()
        if k < 0.35:
            self.counted.add(which)
            if o.type == "std::nullptr_t":
                return "once(%s, nullptr)" % id
            return "once<%s>(%s, %s)" % (o.type, id, o.text)
        if k < 0.5:
            return o.text
        if o.type == "std::nullptr_t":
            return o.text
        v = r.choice(["v%d_%d", "oss%d%d", "val%d_%d", "e%d_%d"]) % (self.step, which)
        if r.random() < 0.15:
            v = ["", "val1", "val2"][which] if which in (1, 2) and self.macro in REL else v
            if r.random() < 0.5:
                v = ["", "oss", "message"][which]
        decl = r.choice(["const ", "", "static ", "static const "])
        decl = (decl.replace("const ", "") if o.type.startswith("const") else decl) + "%s %s = %s;" % (o.type, v, o.text)
        if k < 0.65:
            self.decls += "    " + decl + "\n"
            return v
        if k < 0.72:
            self.decls += "    " + decl + "\n"
            return "spots[0] == 1 ? %s : %s" % (v, v)
        if k < 0.8 and o.type in ("int", "unsigned", "long long", "unsigned long"):
            return "%s | %s" % (o.text, o.text)
        if k < 0.86 and self.macro != "EQ_PRINTABLE":
            self.decls += "    " + decl + "\n"
            return "[&]() { return %s; }()" % v if not decl.startswith("static") else "[]() { return %s; }()" % v
        if k < 0.92 and o.type not in ("Told",) and not o.type.startswith("Only"):
            self.decls += "    %s %s = %s;\n" % (o.type, v, o.text)
            return "%s = %s" % (v, o.text) if o.type != "bool" else "%s && true" % v
        return "(0, %s)" % o.text

    def text(self, context=None):
        c, i = context or self.context, "%d, %d" % (self.test, self.step)
        out = "    {\n" + "".join("    " + x for x in self.decls.splitlines(True))
        a = self.call
        if c == "ifelse":
            out += "        if (spots[0] == 1)\n            %s\n        else\n            mark(%s, 9);\n" % (a, i)
        elif c == "loop":
            out += "        for (int turn = 0; turn < 1; ++turn)\n            %s\n" % a
        elif c == "switch":
            out += "        switch (spots[0])\n        {\n        case 1:\n            %s\n            break;\n        default:\n            mark(%s, 9);\n        }\n" % (a, i)
        elif c == "lambda":
            out += "        auto inside = [&]() { %s };\n        inside();\n" % a
        elif c == "helper":
            out += "        struct Local { static void run() { %s\n%s } };\n        Local::run();\n" % (self.decls, a)
        elif c == "nested":
            out += "        if (spots[1] == 2)\n            if (spots[0] == 9)\n                mark(%s, 9);\n            else\n                %s\n" % (i, a)
        elif c == "catchint":
            out += "        try\n        {\n            %s\n        }\n        catch (int)\n        {\n            mark(%s, 9);\n        }\n" % (a, i)
        elif c == "dowhile":
            out += "        do\n            %s\n        while (spots[0] == 9);\n" % a
        else:
            out += "        " + a + "\n"
        return out + "    }\n    mark(%s, 0);\n" % i


class TestText:
    def __init__(self, r, id, std):
        self.id = id
        self.steps = [Step(r, id, k, std) for k in range(r.choice([1, 1, 2, 2, 3, 5]))]
        if r.random() < 0.4:       # the first failing one must come last sometimes
            self.steps.sort(key=lambda s: not s.ok)
        self.fixture = r.random() < 0.2

    def failing(self):
        for s in self.steps:
            if not s.ok:
                return s
        return None

    def text(self):
        head = "TEST_F(Ground, T%d)" % self.id if self.fixture else "TEST(Random, T%d)" % self.id
        return head + "\n{\n" + "".join(s.text() for s in self.steps) + "}\n"


class Batch:
    def __init__(self, seed_text, n):
        r = random.Random(seed_text)
        self.cxx, self.std = r.choice(COMPILERS), r.choice(STDS)
        self.flags = r.choice([(), (), ("-O2",), ("-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-g1")])
        self.tests = [TestText(r, k, self.std) for k in range(n)]

    def program(self, tests, flags=()):
        text = '#include "asserts.h"\nstruct Ground\n{\n    int level;\n};\n' + "".join(t.text() for t in tests) + \
            "int main()\n{\n    return finish(Caitlyn::Test::TestRegistry::Instance().RunAll());\n}\n"
        return Program({"t.cpp": text}, ["t.cpp"], self.cxx, self.std, self.flags + tuple(flags))


def judge(tests, res):
    """(index, message) or None"""
    if res.blocked:
        return None
    if "@@ end" not in res.out:
        m = re.findall(r"^\[ RUN      \] \w+\.T(\d+)$", res.out, re.M)
        if m:
            k = [i for i, t in enumerate(tests) if t.id == int(m[-1])]
            if k:
                return k[0], "the program ended in this test (exit status %d)\n%s" % (res.rc, res.out[-500:].encode("utf-8", "replace").decode())
        return 0, "the program ended before its time (exit status %d)" % res.rc
    verdict, current = {}, None
    for line in res.out.split("\n"):
        m = re.match(r"\[(       OK|     FAIL) \] \w+\.T(\d+) \(", line)
        if m:
            verdict.setdefault(int(m.group(2)), []).append(m.group(1).strip())
    seen = collections.Counter()
    for m in re.finditer(r"^@@ (\d+) (\d+) (\d+)$", res.out, re.M):
        seen[tuple(map(int, m.groups()))] += 1
    for i, t in enumerate(tests):
        bad = t.failing()
        want = ["FAIL"] if bad else ["OK"]
        if verdict.get(t.id) != want:
            return i, "reported as %s, expected %s" % (verdict.get(t.id), want)
        stopped = False
        for s in t.steps:
            if seen[(t.id, s.step, 9)]:
                return i, "assertion %d: another branch was taken" % s.step
            for which in s.counted:
                n = seen[(t.id, s.step, which)]
                if stopped and n or not stopped and (n < 1 if s.again else n != 1):
                    return i, "assertion %d: operand %d was evaluated %d times" % (s.step, which, n)
            n = seen[(t.id, s.step, 0)]
            if n != (0 if stopped or s is bad else 1):
                return i, "the text behind assertion %d ran %d times" % (s.step, n)
            stopped = stopped or s is bad
    rc = re.search(r"@@ result (-?\d+)", res.out)
    if (int(rc.group(1)) != 0) != any(t.failing() for t in tests):
        return 0, "the runner returned %s" % rc.group(1)
    return None


STUB = ["-DSTUB_ASSERTS"]


def failing(batch, tests, root):
    res = execute(batch.program(tests), root)
    if res.compiled:
        return judge(tests, res)
    if len(tests) == 1 and not execute(batch.program(tests, STUB), root, run=False).compiled:
        return None     # the generator's fault
    if len(tests) == 1:
        return 0, "the assertions do not compile\n" + "\n".join(x for x in res.out.splitlines() if "error" in x)[:1500]
    h = len(tests) // 2
    for off, part in ((0, tests[:h]), (h, tests[h:])):
        f = failing(batch, part, root)
        if f:
            return off + f[0], f[1]
    return None


def shrink(batch, t, msg, root):
    again = True
    while again:
        again = False
        for s in list(t.steps):
            if len(t.steps) == 1:
                break
            kept = t.steps
            t.steps = [x for x in kept if x is not s]
            f = failing(batch, [t], root)
            if f:
                msg, again = f[1], True
            else:
                t.steps = kept
    for s in t.steps:
        old = s.context
        s.context = "plain"
        f = failing(batch, [t], root)
        if f:
            msg = f[1]
        else:
            s.context = old
    return msg


def reevaluation(root):
    """How often a failing comparison evaluates its operands: one fixed case per comparison."""
    out = []
    text = '#include "asserts.h"\n'
    for i, (m, rel) in enumerate(sorted(REL.items())):
        a, b = {"==": (1, 2), "!=": (1, 1), "<": (2, 1), "<=": (2, 1), ">": (1, 2), ">=": (1, 2)}[rel]
        text += "TEST(Twice, T%d)\n{\n    ASSERT_%s(once<int>(%d, 0, 1, %d), once<int>(%d, 0, 2, %d));\n}\n" % (i, m, i, a, i, b)
    text += "int main()\n{\n    return finish(Caitlyn::Test::TestRegistry::Instance().RunAll());\n}\n"
    p = Program({"t.cpp": text}, ["t.cpp"])
    res = execute(p, root)
    if not res.compiled or "@@ end" not in res.out:
        return [("the fixed cases do not run", p)]
    seen = collections.Counter(tuple(map(int, m.groups())) for m in re.finditer(r"^@@ (\d+) (\d+) (\d+)$", res.out, re.M))
    for i, (m, rel) in enumerate(sorted(REL.items())):
        l, r = seen[(i, 0, 1)], seen[(i, 0, 2)]
        if (l, r) != (1, 1):
            out.append(("failing ASSERT_%s evaluates its left operand %d times and its right operand %d times" % (m, l, r), p))
    return out


BUDGET = "96 programs of 70 tests quick, 900 of 80 thorough"
RULE = ("tests of 1-5 assertions over operands of 20 types written in many ways and places, with counted operands and marks behind "
        "every assertion; non-trivial: a failing assertion, a counted operand or an assertion inside another statement. How often "
        "a failing comparison evaluates its operands is decided by one fixed case per comparison.")


def check(tier):
    t0 = time.time()
    n, batches = (70, 96) if tier == "quick" else (80, 900)
    root = scratch("R02")
    try:
        todo = [Batch("R02 %d %d" % (seed(), k), n) for k in range(batches)]
        state = dict(stop=False)

        def work(b):
            if state["stop"]:
                return b, None, False
            f = failing(b, b.tests, root)
            if f:
                state["stop"] = True
            return b, f, True
        text, total, distinct, kinds, samples = None, 0, set(), collections.Counter(), []
        fixed = reevaluation(root)
        for b, f, ran in pool_map(work, todo):
            if not ran:
                continue
            for t in b.tests:
                total += 1
                body = "".join(s.text().replace("(%d, " % t.id, "(") for s in t.steps)
                if any(s.counted or s.context != "plain" or not s.ok for s in t.steps):
                    distinct.add(hash(body))
                bad = t.failing()
                for s in t.steps:
                    kinds["%s %s" % (s.macro, "fails" if s is bad else "holds" if s.ok else "unreached")] += 1
                    kinds["in " + s.context] += 1
                    if s.kind:
                        kinds["of " + s.kind] += 1
            if len(samples) < 8:
                samples.append(b.tests[0].text())
            if f and text is None:
                t = b.tests[f[0]]
                msg = shrink(b, t, f[1], root)
                if all(failing(b, [t], root) for _ in range(2)):
                    text = "property R02\n%s\nreplay: python3 check.py --replay <this file>\n\n--- case ---\n%s--- program ---\n%s\n" % (
                        msg, t.text(), b.program([t]).text())
                elif all(failing(b, b.tests, root) for _ in range(2)):
                    text = "property R02\n%s\nreplay: python3 check.py --replay <this file>\n\n--- case ---\n%s--- program ---\n%s\n" % (
                        msg, t.text(), b.program(b.tests).text())
        code = 0
        for what, p in fixed:
            case = hashlib.sha256(what.encode()).hexdigest()[:16]
            for prop, k, line in known_findings():
                if prop == "R02" and k == case:
                    print("KNOWN-FINDING: " + line)
                    break
            else:
                if not code:
                    report_violation("R02", "property R02\n%s (case %s)\n--- program ---\n%s\n" % (what, case, p.text()))
                code = 1
        total += len(REL)
        cov = dict(evaluations=total, distinct_nontrivial=len(distinct), samples=samples, classes=dict(kinds),
                   rule=RULE)
        return max(code, verdict("R02", tier, t0, cov, text))
    finally:
        shutil.rmtree(root, ignore_errors=True)
