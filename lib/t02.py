"""T02: generated classes with chosen operators and members; what the library detects against what was put in."""
import random, re, time
from programs import *

# trait -> (symbol, operand shape)
BINARY = dict(HasLessOperatorType="<", HasGreaterOperatorType=">", HasAddOperatorType="+", HasSubtractOperatorType="-",
              HasMultyplyOperatorType="*", HasDivideOperatorType="/", HasModulusOperatorType="%", HasBitwiseAndOperatorType="&",
              HasBitwiseOrOperatorType="|", HasBitwiseXorOperatorType="^", HasLeftShiftOperatorType="<<", HasRightShiftOperatorType=">>")
EQUALITY = dict(HasEqualOperatorType="==", HasNotEqualOperatorType="!=")
STEP = dict(HasIncrementOperatorType="++", HasDecrementOperatorType="--")
TEXT = dict(HasToString="to_string", HasStr="str", HasCStr="c_str", ConvertibleToString="ToString")
QUERIES = list(BINARY) + list(EQUALITY) + list(STEP) + ["HasSubscriptOperatorType", "HasIStreamOperatorType", "HasOStreamOperatorType"] + list(TEXT)
# operators that change nothing about the queries above
UNRELATED = ["bool operator!() const;", "K& operator+=(const K&);", "K& operator-=(const K&);", "bool operator&&(const K&) const;",
             "bool operator||(const K&) const;", "K operator,(const K&) const;", "K* operator->();", "K operator-() const;", "K operator+() const;",
             "K operator~() const;", "int operator()() const;", "int operator()(const K&);", "K& operator|=(const K&);", "K& operator<<=(const K&);",
             "bool operator<=(const K&) const;", "bool operator>=(const K&) const;", "int size() const;", "int* begin(); int* end();",
             "explicit operator int() const;", "explicit operator bool() const;", "K(int);", "K(const K&);", "K(K&&);", "K() = delete;",
             "std::string tostring() const;", "std::string toString() const;", "std::string Str() const;", "std::string CStr() const;",
             "std::string to_str() const;", "virtual ~K();", "int value; char name[4];", "int& operator*();", "bool operator*() const;",
             "K& operator=(const K&) = delete;", "std::string string() const;", "std::wstring to_wstring() const;",
             "friend std::wostream& operator<<(std::wostream&, const K&);", "K& operator%=(const K&);", "void* operator&();"]


class Item:
    """One declaration. provides: query or None; const: usable on constants; name: what it declares, for uniqueness"""

    def __init__(self, name, text, query, provides, const=True, outside="", base=False):
        self.name, self.text, self.query, self.provides, self.const, self.outside, self.base = \
            name, text, query, provides, const, outside, base


def item(r, query):
    """A declaration that gives the class what the query asks about, or looks like it"""
    yes = r.random() < 0.6
    hide = r.choice(["private: %s public:", "protected: %s public:", None])

    def no(text):
        if hide:
            return hide % text
        return text[:-1] + " = delete;"
    if query in BINARY or query in EQUALITY:
        op = BINARY.get(query) or EQUALITY[query]
        ret = "bool" if query in EQUALITY else r.choice(["bool", "K", "int", "void", "const K&", "double*", "Empty"])
        if yes:
            forms = [("%s operator%s(const K&) const;", True, False), ("%s operator%s(const K&) const noexcept;", True, False),
                     ("friend %s operator%s(const K&, const K&);", True, False)]
            if query not in EQUALITY:
                forms += [("%s operator%s(const K&);", False, False), ("%s operator%s(K);", False, False), ("%s operator%s(K) const;", True, False),
                          ("friend %s operator%s(K, const K&);", True, False), ("friend %s operator%s(K, K);", True, False)]
            form, const, _ = r.choice(forms)
            if r.random() < 0.15:       # outside of the class
                return Item(op, "", query, True, True, "%s operator%s(const K&, const K&);" % (ret, op))
            return Item(op, form % (ret, op), query, True, const, base=query not in EQUALITY and "friend" not in form and r.random() < 0.2)
        if r.random() < 0.35:
            other = r.choice(["Empty", "const Empty&", "Empty*", "std::vector<Empty>"])
            form = r.choice(["%s operator%s(%s) const;", "friend %s operator%s(const K&, %s);"])
            return Item(op, form % (ret, op, other), query, False)
        return Item(op, no("%s operator%s(const K&) const;" % (ret, op)), query, False)
    if query in STEP:
        op = STEP[query]
        ret = r.choice(["K&", "K", "void", "int"])
        if yes:
            return Item(op, r.choice(["%s operator%s();", "friend %s operator%s(K&);", "%s operator%s() noexcept;"]) % (ret, op), query, True, False)
        return Item(op, no("%s operator%s();" % (ret, op)), query, False)
    if query == "HasSubscriptOperatorType":
        ret = r.choice(["int&", "K", "void", "const char*"])
        if yes:
            form, const = r.choice([("%s operator[](const K&) const;", True), ("%s operator[](K);", False), ("%s operator[](const K&);", False)])
            return Item("[]", form % ret, query, True, const)
        return Item("[]", no("%s operator[](const K&) const;" % ret), query, False)
    if query == "HasIStreamOperatorType":
        if yes:
            return Item("in", "friend std::istream& operator>>(std::istream&, K&);", query, True, False)
        return Item("in", r.choice(["friend std::wistream& operator>>(std::wistream&, K&);", "friend std::istream& operator>>(std::istream&, K&) = delete;",
                                    "friend std::istream& operator>>(K&, std::istream&);"]), query, False)
    if query == "HasOStreamOperatorType":
        if yes:
            return Item("out", r.choice(["friend std::ostream& operator<<(std::ostream&, const K&);", "friend void operator<<(std::ostream&, const K&);",
                                         "friend std::ostream& operator<<(std::ostream&, K);"]), query, True)
        return Item("out", r.choice(["friend std::wostream& operator<<(std::wostream&, const K&);",
                                     "friend std::ostream& operator<<(std::ostream&, const K&) = delete;",
                                     "friend std::ostream& operator<<(const K&, std::ostream&);", "std::ostream& operator<<(std::ostream&) const;"]), query, False)
    n = TEXT[query]
    ret = r.choice(["std::string", "const char*", "const std::string&", "Caitlyn::String", "int", "void"])
    if yes:
        form, const = r.choice([("%s %s() const;", True), ("%s %s();", False), ("%s %s() const noexcept;", True), ("static %s %s();", True),
                                ("%s %s(int base = 10) const;", True), ("template <class X = int> %s %s() const;", True), ("virtual %s %s() const;", True)])
        return Item(n, form % (ret, n), query, True, const, base="template" not in form and r.random() < 0.25)
    form = r.choice(["%s %s(int) const;", "int %s;", "struct %s;", "enum { %s };", "private: %s %s() const; public:", "protected: %s %s(); public:",
                     "%s %s() = delete;", "template <class X> %s %s() const;", "static int %s;"])
    return Item(n, form % ((ret, n) if form.count("%s") == 2 else n), query, False)


class Class:
    def __init__(self, name, r):
        self.name = name
        self.final_ = r.random() < 0.1
        self.order = r.random()
        queries = r.sample(QUERIES, r.choice([0, 1, 1, 2, 3, 5, 9, len(QUERIES)]))
        self.items = [item(r, q) for q in queries]
        unrelated = r.sample(UNRELATED, r.choice([0, 0, 1, 2, 4]))
        self.items += [Item("", u, None, False) for u in unrelated]
        if any(re.search(r"\(K\)|\(K,|, K\)", i.text) for i in self.items):     # operands taken by value must be copyable
            self.items = [i for i in self.items if i.text != "K(K&&);"]
        for i in self.items:        # a member of that name in the class hides the one of the base
            if i.base and any(o is not i and ("operator%s(" % i.name) in o.text and "friend" not in o.text for o in self.items):
                i.base = False
        r.shuffle(self.items)
        self.private_base = r.random() < 0.15

    def expected(self, std):
        """query -> (answer, also for constants)"""
        want = {q: (False, True) for q in QUERIES}
        declared = {i.query: i for i in self.items if i.query}
        for q, i in declared.items():
            if i.base and self.private_base:
                want[q] = (False, True)
            else:
                want[q] = (i.provides, i.const)
        if std >= "c++20" and "HasEqualOperatorType" in declared and want["HasEqualOperatorType"][0]:
            d = declared.get("HasNotEqualOperatorType")
            # a != b may mean !(a == b), unless != is declared for two such operands
            if d is None or "Empty" in d.text:
                want["HasNotEqualOperatorType"] = want["HasEqualOperatorType"]
        return want

    def text(self):
        base = [i.text for i in self.items if i.base]
        own = [i.text for i in self.items if not i.base and i.text]
        free = [i.outside for i in self.items if i.outside]
        n = self.name
        t = ""
        if base:
            t += "struct %sBase { %s };\n" % (n, " ".join(base).replace("K", n + "Base"))
        t += "class %s%s%s { public: %s };\n" % (n, " final" if self.final_ else "", " : %s %sBase" % ("private" if self.private_base else "public", n) if base else "",
                                                 " ".join(own).replace("K", n))
        for f in free:
            t += f.replace("K", n) + "\n"
        return t


class Batch:
    def __init__(self, seed_text, n):
        r = random.Random(seed_text)
        self.cxx, self.std = r.choice(COMPILERS), r.choice(STDS)
        self.classes = [Class("Q%dz" % k, r) for k in range(n)]

    def program(self, cl, flags=()):
        return Program({"t.cpp": source(cl, self.std)}, ["t.cpp"], self.cxx, self.std, flags)


HEAD = """#include <cstdio>
#include <iostream>
#include <string>
#include <utility>
#include <vector>
#ifndef STD_ONLY
#include <Caitlyn/Traits>
#include <Caitlyn/String>
#define ASK(q, t) Caitlyn::q<t>::Value
#define ASKF(q, t) std::integral_constant<bool, Caitlyn::q<t>()>::value
#else
namespace Caitlyn { class String {}; }
#define ASK(q, t) (sizeof(t*) != 0)
#define ASKF(q, t) (sizeof(t*) != 0)
#endif
struct Empty {};
static int bad = 0;
static void answer(const char* id, const char* what, bool got, bool want)
{
    if (got != want)
    {
        std::printf("WRONG %s %s got %s expected %s\\n", id, what, got ? "yes" : "no", want ? "yes" : "no");
        ++bad;
    }
}
"""


def source(cl, std):
    t = HEAD + "namespace space {\n" + "".join(c.text() for c in cl) + "}\nint main()\n{\n"
    for i, c in enumerate(cl):
        for q, w in sorted(c.expected(std).items()):
            types = ["space::" + c.name]
            if w[1] and q not in STEP and q != "HasIStreamOperatorType":
                types += ["const space::%s&" % c.name, "space::%s&" % c.name]
            for ty in types:
                t += '    answer("%d", "%s of %s", %s, %s);\n' % (i, q, ty, "ASK%s(%s, %s)" % ("F" if q in TEXT else "", q, ty),
                                                                 "true" if w[0] else "false")
    return t + '    std::printf("done\\n");\n    return bad ? 1 : 0;\n}\n'


def failing(batch, cl, root):
    res = execute(batch.program(cl), root)
    if res.compiled:
        for line in res.out.splitlines():
            if line.startswith("WRONG "):
                i = int(line.split()[1])
                return i, "\n".join(x for x in res.out.splitlines() if x.startswith("WRONG %d " % i))
        return None
    ours = not execute(batch.program(cl, ["-DSTD_ONLY"]), root, run=False).compiled
    if len(cl) == 1:
        return None if ours else (0, "the queries do not compile\n" + "\n".join(x for x in res.out.splitlines() if "error" in x)[:1500])
    h = len(cl) // 2
    for off, part in ((0, cl[:h]), (h, cl[h:])):
        f = failing(batch, part, root)
        if f:
            return off + f[0], f[1]
    return None


def shrink(batch, c, msg, root):
    again = True
    while again:
        again = False
        for it in list(c.items):
            kept = c.items
            c.items = [x for x in kept if x is not it]
            f = failing(batch, [c], root)
            if f:
                msg, again = f[1], True
            else:
                c.items = kept
    return msg


BUDGET = "72 programs of 120 classes quick, 600 of 150 thorough"
RULE = ("classes with up to 23 generated operators and text members (15 ways of providing, 12 near misses: private, deleted, other "
        "operand types, data members and types of that name) and unrelated members, each asked all 23 queries; non-trivial: "
        "provides at least one of them and has a near miss or an unrelated member")


def check(tier):
    t0 = time.time()
    n, batches = (120, 72) if tier == "quick" else (150, 600)
    root = scratch("T02")
    try:
        todo = [Batch("T02 %d %d" % (seed(), k), n) for k in range(batches)]
        state = dict(stop=False)

        def work(b):
            if state["stop"]:
                return b, None, False
            f = failing(b, b.classes, root)
            if f:
                state["stop"] = True
            return b, f, True
        text, total, distinct, kinds, samples = None, 0, set(), {}, []
        for b, f, ran in pool_map(work, todo):
            if not ran:
                continue
            for c in b.classes:
                total += 1
                want = c.expected(b.std)
                given = sum(1 for w in want.values() if w and w[0])
                near = sum(1 for i in c.items if i.query and not i.provides)
                if given and (near or len(c.items) > given):
                    distinct.add(hash(c.text().replace(c.name, "K") + b.std))
                for i in c.items:
                    if i.query:
                        k = i.query + (" given" if i.provides else " near miss")
                        kinds[k] = kinds.get(k, 0) + 1
            if len(samples) < 8:
                samples.append(b.classes[0].text())
            if f and text is None:
                c = b.classes[f[0]]
                msg = shrink(b, c, f[1], root)
                if all(failing(b, [c], root) for _ in range(2)):
                    text = "property T02\n%s\nreplay: python3 check.py --replay <this file>\n\n--- case ---\n%s--- program ---\n%s\n" % (
                        msg, c.text(), b.program([c]).text())
        cov = dict(evaluations=total, distinct_nontrivial=len(distinct), samples=samples[:8], classes=kinds,
                   rule=RULE)
        return verdict("T02", tier, t0, cov, text)
    finally:
        shutil.rmtree(root, ignore_errors=True)
