"""T01: generated types, all library queries and transformations against the standard ones."""
import random, time
from programs import *

FUND = ["bool", "char", "signed char", "unsigned char", "wchar_t", "char16_t", "char32_t", "short", "unsigned short", "int", "unsigned",
        "long", "unsigned long", "long long", "unsigned long long", "float", "double", "long double", "std::nullptr_t"]
INTEGERS = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long",
            "unsigned long long"]
LIBRARY = ["std::string", "std::vector<int>", "std::unique_ptr<int>", "std::shared_ptr<long>"]


class T:
    """A type expression. kind: object, void, func, abominable, lref, rref, uarr; over: the kind behind references"""

    def __init__(self, text, kind, parts=(), abstract=False, size=1):
        self.text, self.kind, self.parts, self.abstract, self.size = text, kind, tuple(parts), abstract, size
        self.over = getattr(parts[0], "over", parts[0]) if kind in ("lref", "rref") else self


class Cls:
    def __init__(self, name, text, kind, base_ok=True, abstract=False, final=False, virtual_dtor=False):
        self.name, self.text, self.kind, self.base_ok, self.abstract, self.final, self.virtual_dtor = \
            name, text, kind, base_ok, abstract, final, virtual_dtor


def classes(r, n):
    """Random classes, unions and enumerations; only declared, so no member needs a body."""
    out = []
    for i in range(n):
        name = "K%d" % i
        what = r.random()
        if what < 0.15:
            u = r.choice(["", " : unsigned char", " : long long", " : bool", " : char"])
            out.append(Cls(name, "enum %s%s%s { %s };" % (r.choice(["", "class "]), name, u, "" if r.random() < 0.3 else "E%d" % i), "enum", False))
            continue
        usable = [c for c in out if c.kind == "class" and c.base_ok and not c.abstract]
        if what < 0.3:
            fields = "".join(" %s f%d;" % (r.choice(["int", "char", "double", "void*"] + ["::" + c.name for c in usable]), k) for k in range(r.randint(0, 3)))
            extra = r.choice(["", " %s();" % name, " ~%s();" % name, " %s(const %s&);" % (name, name)])
            out.append(Cls(name, "union %s {%s%s };" % (name, fields, extra), "union", False))
            continue
        bases = [c for c in out if c.kind == "class" and c.base_ok and not c.final]
        r.shuffle(bases)
        bases = bases[:r.choice([0, 0, 1, 1, 2])]
        odd = not bases and r.random() < 0.3      # a destructor that nothing may be derived from or contain
        vbase = any(b.virtual_dtor for b in bases)
        body = []
        access = r.choice(["public", "public", "private", "protected"])
        vdtor = vbase
        if odd:
            body.append(r.choice(["~%s() = delete;", "private: ~%s(); public:", "~%s() noexcept(false);", "protected: ~%s(); public:"]) % name)
        elif r.random() < 0.3:
            v = r.random() < 0.5
            vdtor = vdtor or v
            body.append("%s~%s()%s;" % ("virtual " if v else "", name, r.choice(["", " = default"])))
        for k in range(r.choice([0, 0, 1, 2])):
            body.append("%s%s f%d%s;" % (r.choice(["", "", "const ", "volatile ", "mutable "]),
                        r.choice(["int", "char", "double", "void*"] + ["::" + c.name for c in usable] * 2 + ["std::string"]), k, r.choice(["", "[3]"])))
        if r.random() < 0.1:
            body.append("int& r;")
        if r.random() < 0.1:
            body.append(r.choice(["private:", "protected:"]) + " int hidden; public:")
        if r.random() < 0.1:
            body.append("unsigned bits : 3;")
        if r.random() < 0.1:
            body.append("static int shared;")
        sigs = ["%s()", "%s(const %s&)", "%s(%s&&)", "%s(%s&)", "%s& operator=(const %s&)", "%s& operator=(%s&&)", "void operator=(%s&)",
                "%s(int)", "explicit %s(double)", "%s(int, int)"]
        for sig in r.sample(sigs, r.choice([0, 0, 0, 1, 2, 3])):
            if sig in ("%s(int)", "explicit %s(double)", "%s(int, int)") or "(%s&)" in sig or sig == "%s()":
                tail = r.choice(["", " noexcept", " = delete"])
            else:
                tail = r.choice(["", " noexcept", " = delete"] + ([" = default"] if "&&" in sig else []))
            text = sig.replace("%s", name) + tail + ";"
            if r.random() < 0.15:
                text = r.choice(["private: ", "protected: "]) + text + " public:"
            body.append(text)
        if r.random() < 0.25 and out:
            other = "::" + r.choice(out).name
            form = r.choice(["%s(%s);", "explicit %s(const %s&);", "%s& operator=(%s) noexcept;", "operator %s();", "explicit operator %s() const;"])
            if form.count("%s") == 2:
                body.append(form % (name, other))
            else:
                oc = [c for c in out if "::" + c.name == other][0]
                if not oc.abstract:
                    body.append(form % other)
        abstract = False
        if r.random() < 0.2:
            if r.random() < 0.4:
                body.append("virtual void v%d() = 0;" % i)
                abstract = True
            else:
                body.append("virtual void v%d();" % i)
        abstract = abstract or any(b.abstract for b in bases)
        final = r.random() < 0.1
        base = ", ".join("%s%s %s" % ("virtual " if r.random() < 0.2 else "", access, b.name) for b in bases)
        text = "struct %s%s%s { %s };" % (name, " final" if final else "", " : " + base if base else "", " ".join(body))
        out.append(Cls(name, text, "class", not odd, abstract, final, vdtor))
    return out


class Gen:
    def __init__(self, r, cl, std):
        self.r, self.cl, self.std = r, cl, std
        self.leaves = [T(f, "object") for f in FUND + LIBRARY] + [T("void", "void")] + \
            [T(c.name, "object", abstract=c.abstract) for c in cl]
        if std in ("c++20", "c++23"):
            self.leaves.append(T("char8_t", "object"))

    def leaf(self):
        r = self.r
        k = r.random()
        if k < 0.08:
            return T("void", "void")
        if k < 0.5:
            return r.choice(self.leaves[:len(FUND)])
        return r.choice(self.leaves)

    def value(self, depth):
        """a type that can be an array element"""
        for _ in range(20):
            t = self.type(depth)
            if t.kind == "object" and not t.abstract:
                return t
        return T("int", "object")

    def param(self, depth):
        for _ in range(20):
            t = self.type(depth)
            if t.kind not in ("void", "abominable") and not t.abstract:
                return t
        return T("int", "object")

    def type(self, depth):
        r = self.r
        if depth <= 0 or r.random() < 0.12:
            return self.leaf()
        k = r.choice(["P", "P", "C", "V", "CV", "C", "L", "R", "U", "A", "A", "F", "F", "M", "P"])
        if k in ("C", "V", "CV"):
            t = self.type(depth - 1)
            return T("%s<%s>" % (k, t.text), t.kind, [t], t.abstract, t.size + 1)
        if k == "P":
            t = self.type(depth - 1)
            if t.kind in ("lref", "rref", "abominable"):
                return t
            return T("P<%s>" % t.text, "object", [t], size=t.size + 1)
        if k in ("L", "R"):
            t = self.type(depth - 1)
            if t.kind in ("void", "abominable"):
                return t
            kind = "lref" if k == "L" or t.kind == "lref" else "rref"
            return T("%s<%s>" % (k, t.text), kind, [t], size=t.size + 1)
        if k in ("U", "A"):
            t = self.value(depth - 1)
            if k == "U":
                return T("U<%s>" % t.text, "uarr", [t], size=t.size + 1)
            return T("A<%s, %d>" % (t.text, r.choice([1, 2, 3, 8] if "A<" in t.text else [1, 2, 255, 256, 100000])), "object", [t], size=t.size + 1)
        if k == "F":
            for _ in range(10):
                ret = self.type(depth - 1)
                if ret.kind in ("object", "void", "lref", "rref") and not ret.abstract and not ret.text.startswith("A<") and "A<" not in self._head(ret):
                    break
            else:
                ret = T("void", "void")
            ps = [self.param(depth - 2) for _ in range(r.choice([0, 1, 1, 2]))]
            forms = ["F", "F", "F", "FE", "FC", "FV", "FL", "FR", "FEC"] + (["FN", "FNC"] if self.std >= "c++17" else [])
            f = r.choice(forms)
            kind = "func" if f in ("F", "FE", "FN") else "abominable"
            return T("%s<%s>" % (f, ", ".join(x.text for x in [ret] + ps)), kind, [ret] + ps, size=1 + ret.size + sum(x.size for x in ps))
        ks = [c for c in self.cl if c.kind in ("class", "union")]
        t = self.type(depth - 1)
        if t.kind in ("void", "lref", "rref") or not ks:
            return t
        return T("M<%s, %s>" % (t.text, r.choice(ks).name), "object", [t], size=t.size + 1)

    @staticmethod
    def _head(t):
        """the outer cv layers and what they wrap, to recognise an array behind cv"""
        while t.text.startswith(("C<", "V<", "CV<")):
            t = t.parts[0]
        return t.text.split("<")[0] + "<"


def alignable(t):
    return t.over.kind in ("object", "uarr")


def lines_for(i, case):
    if case[0] == "one":
        t = case[1]
        s = 'bad += one<%s>("%d");' % (t.text, i)
        if alignable(t):
            s += ' bad += aligned<%s>("%d");' % (t.text, i)
        if t.text in INTEGERS:
            s += ' bad += integer<%s>("%d");' % (t.text, i)
        return s
    return 'bad += two<%s, %s>("%d");' % (case[1].text, case[2].text, i)


def source(cl, cases):
    return '#include "traits.h"\n' + "\n".join(c.text for c in cl) + "\nint main()\n{\n    int bad = 0;\n" + \
        "".join("    " + lines_for(i, c) + "\n" for i, c in enumerate(cases)) + '    std::printf("done\\n");\n    return bad ? 1 : 0;\n}\n'


def describe(case):
    return case[1].text if case[0] == "one" else case[1].text + " and " + case[2].text


def is_nontrivial(case):
    return case[1].size >= 3 if case[0] == "one" else case[1].text != case[2].text and case[1].size + case[2].size >= 3


class Batch:
    def __init__(self, seed_text, n):
        r = random.Random(seed_text)
        self.cxx, self.std = r.choice(COMPILERS), r.choice(STDS)
        self.cl = classes(r, 14)
        g = Gen(r, self.cl, self.std)
        cases, seen = [], set()

        def add(c):
            k = describe(c)
            if k not in seen:
                seen.add(k)
                cases.append(c)
        for t in g.leaves:
            add(("one", t))
        while len(cases) < n:
            if r.random() < 0.6:
                add(("one", g.type(r.choice([1, 2, 2, 3, 3, 4, 6]))))
            else:
                a = g.type(r.choice([0, 1, 2, 3]))
                b = g.type(r.choice([0, 1, 2, 3]))
                k = r.random()
                if k < 0.2 and a.parts:
                    b = r.choice(a.parts)
                elif k < 0.3:
                    b = T("C<%s>" % a.text, a.kind, [a], a.abstract, a.size + 1)
                elif k < 0.4:
                    b = a
                elif k < 0.7:
                    b, a = (r.choice(g.leaves), r.choice(g.leaves[len(FUND):]))
                    if r.random() < 0.5:
                        a = T("L<%s>" % a.text, "lref", [a], size=2) if a.kind != "void" else a
                if r.random() < 0.5:
                    a, b = b, a
                add(("two", a, b))
        self.cases = cases

    def program(self, cases, flags=()):
        return Program({"t.cpp": source(self.cl, cases)}, ["t.cpp"], self.cxx, self.std, flags)


def failing(batch, cases, root):
    """(index, message) of a case the library answers wrongly or refuses, or None"""
    res = execute(batch.program(cases), root)
    if res.compiled:
        if res.rc == 0 and "done" in res.out:
            return None
        for line in res.out.splitlines():
            if line.startswith("WRONG "):
                i = int(line.split()[1])
                return i, "\n".join(x for x in res.out.splitlines() if x.startswith("WRONG %d " % i))
        return None
    # does not compile: is it the library?
    if not execute(batch.program(cases, ["-DSTD_ONLY"]), root, run=False).compiled:
        if len(cases) == 1:
            return None     # not a valid type: the generator's fault
        a, b = cases[:len(cases) // 2], cases[len(cases) // 2:]
    elif len(cases) == 1:
        return 0, "the queries do not compile\n" + "\n".join(x for x in res.out.splitlines() if "error" in x)[:1500]
    else:
        a, b = cases[:len(cases) // 2], cases[len(cases) // 2:]
    for off, part in ((0, a), (len(a), b)):
        f = failing(batch, part, root)
        if f:
            return off + f[0], f[1]
    return None


def shrink(batch, case, msg, root):
    for _ in range(12):
        parts = []
        if case[0] == "one":
            parts = [("one", p) for p in case[1].parts]
        else:
            parts = [("two", p, case[2]) for p in case[1].parts] + [("two", case[1], p) for p in case[2].parts]
        for p in sorted(parts, key=lambda c: len(describe(c))):
            f = failing(batch, [p], root)
            if f:
                case, msg = p, f[1]
                break
        else:
            break
    # drop the classes that are not needed
    keep = list(batch.cl)
    for c in reversed(list(keep)):
        if any(c.name in o.text.split("{", 1)[-1] or c.name in o.text.split("{")[0].split(":")[-1] for o in keep if o is not c) and c.name in describe(case):
            continue
        trial = [o for o in keep if o is not c]
        old, batch.cl = batch.cl, trial
        if failing(batch, [case], root):
            keep = trial
        else:
            batch.cl = old
    batch.cl = keep
    return case, msg


BUDGET = "80 programs of 150 type expressions quick, 600 of 160 thorough"
RULE = ("type expressions of up to 6 constructors over fundamental types, library classes and 14 generated classes, unions and "
        "enumerations per program, alone (60+ queries and transformations) and in pairs; non-trivial: two or more constructors, "
        "or two different types")


def check(tier):
    t0 = time.time()
    n, batches = (150, 80) if tier == "quick" else (160, 600)
    root = scratch("T01")
    try:
        todo = [Batch("T01 %d %d" % (seed(), k), n) for k in range(batches)]
        state = dict(stop=False)

        def work(b):
            if state["stop"]:
                return b, None, False
            f = failing(b, b.cases, root)
            if f:
                state["stop"] = True
            return b, f, True
        results = pool_map(work, todo)
        text = None
        distinct, total, classes_, samples = set(), 0, {}, []
        for b, f, ran in results:
            if not ran:
                continue
            total += len(b.cases)
            classes_[b.cxx + " " + b.std] = classes_.get(b.cxx + " " + b.std, 0) + len(b.cases)
            for c in b.cases:
                if is_nontrivial(c):
                    distinct.add(describe(c) + "|" + b.std + "|" + " ".join(x.text for x in b.cl if x.name in describe(c)))
            if len(samples) < 8:
                samples.append(describe(b.cases[-1]))
                samples.append(b.cl[-1].text)
            if f and text is None:
                case, msg = shrink(b, b.cases[f[0]], f[1], root)
                if all(failing(b, [case], root) for _ in range(2)):
                    p = b.program([case])
                    text = "property T01\n%s\nreplay: python3 check.py --replay <this file>\n\n--- case ---\n%s\n--- program ---\n%s\n" % (
                        msg, describe(case), p.text())
        cov = dict(evaluations=total, distinct_nontrivial=len(distinct), samples=samples[:8],
                   rule=RULE, classes=classes_)
        return verdict("T01", tier, t0, cov, text)
    finally:
        shutil.rmtree(root, ignore_errors=True)
