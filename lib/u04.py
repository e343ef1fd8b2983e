"""U04: sizes of generated types and objects, limits of number types, and values in the fixed-width types."""
import random, time
from programs import *
import t01

NUMBERS = ["bool", "char", "signed char", "unsigned char", "wchar_t", "char16_t", "char32_t", "short", "unsigned short", "int", "unsigned",
           "long", "unsigned long", "long long", "unsigned long long", "float", "double", "long double"]
# library type, bits, integer, signed
WIDTHS = [("SByte", 8, 1, 1), ("Byte", 8, 1, 0), ("Int8", 8, 1, 1), ("UInt8", 8, 1, 0), ("Int16", 16, 1, 1), ("UInt16", 16, 1, 0),
          ("Int32", 32, 1, 1), ("UInt32", 32, 1, 0), ("Int64", 64, 1, 1), ("UInt64", 64, 1, 0), ("CodePoint", 32, 1, 0),
          ("Float", 32, 0, 1), ("Double", 64, 0, 1)]
# library type, standard type of the same width
TWINS = [("SByte", "std::int8_t"), ("Byte", "std::uint8_t"), ("Int8", "std::int8_t"), ("UInt8", "std::uint8_t"), ("Int16", "std::int16_t"),
         ("UInt16", "std::uint16_t"), ("Int32", "std::int32_t"), ("UInt32", "std::uint32_t"), ("Int64", "std::int64_t"),
         ("UInt64", "std::uint64_t"), ("IntMax", "std::intmax_t"), ("UIntMax", "std::uintmax_t"), ("IntPtr", "std::intptr_t"),
         ("UIntPtr", "std::uintptr_t"), ("SizeType", "std::size_t"), ("PtrDiff", "std::ptrdiff_t"), ("SSizeType", "std::ptrdiff_t")]
BITS = {"8": 8, "16": 16, "32": 32, "64": 64, "max": 64, "ptr": 64, "ze": 64}
HUGE = 2 ** 40     # bytes; larger arrays have no object


class Case:
    """One call; decls: what has to be declared for it"""

    def __init__(self, text, call, decls=(), nontrivial=True, parts=(), what=""):
        self.text, self.call, self.decls, self.nontrivial, self.parts, self.what = text, call, tuple(decls), nontrivial, parts, what


def arrays(t):
    """The product of the array bounds in a type expression, roughly its size"""
    n = 1
    for k in re.findall(r", (\d+)>", t.text):
        n *= int(k)
    return n


def size_case(t, value):
    if t.kind in ("void", "func", "abominable", "uarr"):
        return None
    if value and (t.kind != "object" or t.abstract or arrays(t) > 1000000):
        return None
    if arrays(t) > HUGE or (t.kind in ("lref", "rref") and t.over.kind in ("func", "uarr", "void", "abominable")):
        return None
    return Case(("object of " if value else "size of ") + t.text, ("value_size<%s>" if value else "type_size<%s>") % t.text, (), t.size >= 2,
                [t], "value" if value else "type")


def literal(v, bits):
    return str(v) + "LL" if v >= 0 else "-%dLL - 1" % (-v - 1)


class Batch:
    def __init__(self, seed_text, n):
        r = random.Random(seed_text)
        self.cxx, self.std = r.choice(COMPILERS), r.choice(STDS)
        self.cl = t01.classes(r, 12)
        g = t01.Gen(r, self.cl, self.std)
        cases, seen = [], set()

        def add(c):
            if c is not None and c.text not in seen:
                seen.add(c.text)
                cases.append(c)
        for t in g.leaves:
            add(size_case(t, False))
        for name, bits, integer, sign in WIDTHS:
            add(Case("width of " + name, None, (), False, what="width:%s" % name))
            cases[-1].body = 'width<Caitlyn::%s>("%%d", "%s", %d, %s, %s)' % (name, name, bits, "true" if integer else "false", "true" if sign else "false")
        self.limits = []
        while len(cases) < n:
            k = r.random()
            if k < 0.3:
                add(size_case(g.type(r.choice([1, 2, 2, 3, 4])), False))
            elif k < 0.55:
                add(size_case(g.type(r.choice([0, 1, 2, 2, 3])), True))
            elif k < 0.7:
                t = r.choice(NUMBERS + (["char8_t"] if self.std >= "c++20" else []))
                q = r.choice(["", "", "const ", "volatile ", "const volatile "])
                c = Case("limits of %s%s" % (q, t), None, (), q != "", what="limits")
                c.body = 'limits<%s%s>("%%d")' % (q, t) + ("" if q else ' + number<%s>("%%d")' % t)
                add(c)
            elif k < 0.8:
                i = len(self.limits)
                low, high = sorted([r.randint(-1000000, 1000000), r.randint(-1000000, 1000000)])
                if r.random() < 0.2:
                    low, high = high, low
                pad = r.choice(["", " char pad[%d];" % r.randint(1, 40), " std::string s;"])
                ctor = "N%d(int v = 0) : v(v) {}" % i if pad else "constexpr N%d(int v = 0) : v(v) {}" % i
                decl = ("struct N%d { %s int v;%s bool operator==(const N%d& o) const { return v == o.v; } };\n"
                        "namespace std { template <> struct numeric_limits<N%d> { static constexpr bool is_specialized = true; "
                        "static %sN%d min() { return N%d(%d); } static %sN%d max() { return N%d(%d); } }; }") % (
                            i, ctor, pad, i, i, "" if pad else "constexpr ", i, i, low, "" if pad else "constexpr ", i, i, high)
                self.limits.append(decl)
                c = Case("limits of a class with the bounds %d and %d%s" % (low, high, pad), None, (decl,), True, what="limits")
                c.body = 'limits<N%d>("%%d")' % i
                add(c)
            else:
                name, std = r.choice(TWINS)
                unsigned = name.startswith("U") or name in ("Byte", "SizeType")
                bits = int(re.search(r"\d+", std).group()) if re.search(r"\d+", std) else 64
                lo, hi = (0, 2 ** bits - 1) if unsigned else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
                v = r.choice([lo, hi, lo + r.randint(0, 3), hi - r.randint(0, 3), r.randint(lo, hi), r.randint(lo, hi),
                              min(hi, 2 ** r.randint(0, bits - 1)), max(lo, -2 ** r.randint(0, bits - 1))])
                c = Case("%d as %s" % (v, name), None, (), abs(v) > 1, what="values")
                c.body = 'holds<Caitlyn::%s, %s>("%%d", "%s holding %d", %s)' % (
                    name, std, name, v, "%dULL" % v if unsigned else literal(v, bits))
                add(c)
        for c in cases:
            if c.call:
                c.body = c.call + '("%d")'
        self.cases = cases

    def program(self, cases, flags=()):
        decls = []
        for c in cases:
            for d in c.decls:
                if d not in decls:
                    decls.append(d)
        text = '#include "sizes.h"\n' + "\n".join(c.text for c in self.cl) + "\n" + "\n".join(decls) + "\nint main()\n{\n    int bad = 0;\n" + \
            "".join("    bad += %s;\n" % c.body.replace("%d", str(i)) for i, c in enumerate(cases)) + \
            '    std::printf("done\\n");\n    return bad ? 1 : 0;\n}\n'
        if "-DSTD_ONLY" in flags:
            text = text.replace('#include "sizes.h"\n', '#include "sizes.h"\nnamespace Caitlyn { %s }\n' % " ".join(
                "using %s = %s;" % x for x in TWINS + [("Float", "float"), ("Double", "double"), ("CodePoint", "std::uint32_t")]))
            text = text.replace("number<", "limits<")
        return Program({"u.cpp": text}, ["u.cpp"], self.cxx, self.std, flags, link=("-pthread",) + (("-ltbb",) if self.std >= "c++17" else ()))


def failing(batch, cases, root):
    """(index, message) of a case the library answers wrongly or refuses, or None"""
    res = execute(batch.program(cases), root)
    if res.compiled:
        if res.rc == 0 and "done" in res.out:
            return None
        for line in res.out.splitlines():
            if line.startswith("WRONG "):
                i = int(line.split()[1])
                return i, "\n".join(x for x in res.out.splitlines() if x.startswith("WRONG %d " % i))
        if len(cases) == 1:
            return 0, "the program ends with status %d\n%s" % (res.rc, res.out[-500:])
    elif not execute(batch.program(cases, ["-DSTD_ONLY"]), root, run=False).compiled:
        if len(cases) == 1:
            return None     # not a valid type: the generator's fault
    elif len(cases) == 1:
        return 0, "it does not compile\n" + "\n".join(x for x in res.out.splitlines() if "error" in x)[:1500]
    a, b = cases[:len(cases) // 2], cases[len(cases) // 2:]
    for off, part in ((0, a), (len(a), b)):
        f = failing(batch, part, root)
        if f:
            return off + f[0], f[1]
    return None


def shrink(batch, case, msg, root):
    if case.parts:
        t = case.parts[0]
        value = case.what == "value"
        for _ in range(12):
            for p in sorted(list(t.parts) + [t01.T("int", "object")], key=lambda x: len(x.text)):
                c = size_case(p, value)
                if c is None or len(p.text) >= len(t.text):
                    continue
                c.body = c.call + '("%d")'
                f = failing(batch, [c], root)
                if f:
                    t, case, msg = p, c, f[1]
                    break
            else:
                break
    keep = list(batch.cl)
    for c in reversed(list(keep)):
        trial = [o for o in keep if o is not c]
        batch.cl = trial
        if failing(batch, [case], root):
            keep = trial
    batch.cl = keep
    return case, msg


RULE = ("sizes in bytes and bits of types of up to 5 constructors over fundamental, library and 12 generated types per program and of objects of "
        "them, limits of number types and of classes with generated bounds, and values at the edges of and inside the fixed-width types; non-trivial: "
        "a type of two or more constructors, a qualified or generated number type, or a value other than -1, 0 and 1")


def check(tier):
    t0 = time.time()
    n, batches = (150, 60) if tier == "quick" else (200, 400)
    root = scratch("U04")
    try:
        todo = [Batch("U04 %d %d" % (seed(), k), n) for k in range(batches)]
        state = dict(stop=False)

        def work(b):
            if state["stop"]:
                return b, None, False
            f = failing(b, b.cases, root)
            if f:
                state["stop"] = True
            return b, f, True
        results = pool_map(work, todo)
        text = None
        distinct, total, classes_, samples = set(), 0, {}, []
        for b, f, ran in results:
            if not ran:
                continue
            total += len(b.cases)
            for c in b.cases:
                k = c.what.split(":")[0]
                classes_[k] = classes_.get(k, 0) + 1
                if c.nontrivial:
                    distinct.add(c.text + "|" + b.std + "|" + " ".join(x.text for x in b.cl if x.name in c.text))
            if len(samples) < 8:
                samples += [b.cases[-1].text, b.cases[-2].text]
            if f and text is None:
                case, msg = shrink(b, b.cases[f[0]], f[1], root)
                if all(failing(b, [case], root) for _ in range(2)):
                    text = "property U04\n%s\nreplay: python3 check.py --replay <this file>\n\n--- case ---\n%s\n--- program ---\n%s\n" % (
                        msg, case.text, b.program([case]).text())
        cov = dict(evaluations=total, distinct_nontrivial=len(distinct), samples=samples[:8], rule=RULE, classes=classes_)
        return verdict("U04", tier, t0, cov, text)
    finally:
        shutil.rmtree(root, ignore_errors=True)
