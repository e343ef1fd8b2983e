"""H01: generated programs that include the public headers in random lists, orders and units, and use what they include."""
import collections, random, time
from programs import *

HEADERS = ["Algorithms", "Caitlyn", "Char", "Collections", "DateTime", "Error", "File", "IO", "Memory", "Numeric", "Serializing", "String", "System",
           "Testing", "Threading", "Traits", "Utility"]

# what a unit may do with a header: bodies of functions that return whether all went well
USES = {
    "Char": [
        'Caitlyn::Char c{"\\xC3\\xA9"}; return c.GetCodePoint() == 0xE9 && c == Caitlyn::Char{"\\xC3\\xA9"};',
        'return Caitlyn::IsDigit(Caitlyn::Char{"7"}.GetCodePoint()) && Caitlyn::ToUppercase(Caitlyn::Char{"q"}) == Caitlyn::Char{"Q"};',
        'auto c = "x"_char; std::ostringstream s; s << c; return s.str() == "x";',
        'std::vector<Caitlyn::Char> v; v.push_back("b"_char); v.push_back("a"_char); std::sort(v.begin(), v.end()); return v[0] == "a"_char;',
    ],
    "String": [
        'Caitlyn::String s{"abc"}; s += "d"; return s == "abcd" && s.size() == 4 && s != Caitlyn::String{"x"};',
        'return Caitlyn::String::Format("{0}-{1}", 1, "two") == "1-two";',
        'std::ostringstream o; o << Caitlyn::String{"text"}; return o.str() == "text";',
        'std::istringstream i("a line\\nmore"); Caitlyn::String s; i >> s; return s == "a line";',
        'std::map<Caitlyn::String, int> m; m["b"] = 2; m["a"] = 1; return m.begin()->second == 1 && m.size() == 2;',
        'std::vector<Caitlyn::String> v{"c", "a", "b"}; std::sort(v.begin(), v.end()); return v[0] == "a" && std::find(v.begin(), v.end(), "c"_str) != v.end();',
        'Caitlyn::StringBuilder b; b.Append("x{}", 1); b.Append("y"); return b.str() == "x1y";',
        'return Caitlyn::Split("a,b", \',\').size() == 2 && Caitlyn::MakeText("n{}", 5).str() == "n5";',
        'std::ostringstream o; std::vector<Caitlyn::String> v{"p", "q"}; '
        'std::copy(v.begin(), v.end(), std::ostream_iterator<Caitlyn::String>(o, ";")); return o.str() == "p;q;";',
    ],
    "Collections": [
        'std::map<int, char> m; m[1] = \'a\'; m[2] = \'b\'; auto k = Caitlyn::GetMapKeys(m); return k.size() == 2;',
        'std::unordered_map<std::string, int> m; m["x"] = 4; auto v = Caitlyn::GetMapValues(m); return v.size() == 1 && *v.begin() == 4;',
    ],
    "Error": [
        'std::vector<Caitlyn::Unexpected<int>> v{Caitlyn::MakeError(1), Caitlyn::MakeError(2)}; return std::find(v.begin(), v.end(), Caitlyn::MakeError(2)) == v.begin() + 1;',
        'Caitlyn::Expected<int, std::string> e = Caitlyn::MakeCorrect<int, std::string>(5); return e.HasValue() && e.Get() == 5;',
        'Caitlyn::Expected<int, std::string> e = Caitlyn::MakeError<std::string>("bad"); return !e && e.GetError() == "bad" && e.Map([](int x) { return x + 1; }).HasError();',
    ],
    "File": [
        'const std::string n = NAME; std::remove(n.c_str()); bool ok; { Caitlyn::File f{Caitlyn::String{n}}; f.WriteLine("one"); f.WriteLine("two"); '
        'ok = f.ReadLine() == "one" && f.ReadLine() == "two"; } std::remove(n.c_str()); return ok;',
        'const std::string n = NAME; bool ok; { Caitlyn::File f{Caitlyn::String{n}}; f.Erase(); f.Write("abc"); ok = f.Read() == "abc"; } std::remove(n.c_str()); return ok;',
    ],
    "IO": [
        'std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf()); Caitlyn::OutputStream::WriteLine("n {}", 3); std::cout.rdbuf(old); return o.str() == "n 3\\n";',
        'std::istringstream i("typed\\n"); auto* old = std::cin.rdbuf(i.rdbuf()); auto s = Caitlyn::InputStream::ReadLine(); std::cin.rdbuf(old); return s == "typed";',
        'std::ostringstream o; auto* old = std::cerr.rdbuf(o.rdbuf()); Caitlyn::ErrorStream::Write("e"); std::cerr.rdbuf(old); return o.str() == "e";',
    ],
    "Memory": [
        'Caitlyn::SharedPtr<int> a{new int{4}}; Caitlyn::SharedPtr<int> b{a}; Caitlyn::WeakPtr<int> w{b}; return *a == 4 && a.Get() == b.Get() && *w.lock() == 4;',
        'Caitlyn::UniquePtr<std::string> u{new std::string("x")}; return *u == "x" && u->size() == 1;',
        'return Caitlyn::SizeOf<char>() == 1 && Caitlyn::SizeOf<int>(Caitlyn::MemoryFormat::Bit) == sizeof(int) * 8;',
    ],
    "Numeric": [
        'Caitlyn::BigInteger a{"123456789012345678901234567890"}; return (a + a).ToString() == "246913578024691357802469135780" && a / a == Caitlyn::BigInteger{"1"};',
        'std::vector<Caitlyn::BigInteger> v; v.push_back("30"_bigint); v.push_back("4"_bigint); std::sort(v.begin(), v.end()); '
        'return v[0].ToString() == "4" && std::accumulate(v.begin(), v.end(), "0"_bigint) == "34"_bigint;',
        'std::set<Caitlyn::BigInteger> s; s.insert("2"_bigint); s.insert("1"_bigint); s.insert("2"_bigint); return s.size() == 2;',
        'std::set<Caitlyn::BigFloat> s; s.insert("2.5"_bigfloat); s.insert("1.5"_bigfloat); std::ostringstream o; o << *s.begin(); return o.str() == "1.5";',
        'return std::plus<Caitlyn::BigFloat>()("1.25"_bigfloat, "0.75"_bigfloat) == "2"_bigfloat;',
        'return Caitlyn::MaxValue<int>() == 2147483647 && Caitlyn::MinValue<unsigned>() == 0;',
    ],
    "Serializing": [
        'Caitlyn::JsonDocument d; d["a"] = 1; d["b"] = "x"; std::ostringstream o; o << d; return o.str().find("\\"a\\"") != std::string::npos;',
        'auto d = Caitlyn::Json::MakeDocument("{\\"k\\": [1, 2, {\\"z\\": null}]}"); return d["k"].Size() == 3;',
        'std::istringstream i("{\\"n\\": 12}"); Caitlyn::JsonDocument d; i >> d; return d["n"].GetIntegral() == 12;',
    ],
    "Testing": [
        'struct In { static void f() { ASSERT_EQ(1, 2); } }; try { In::f(); } catch (const std::exception&) { return true; } return false;',
        'struct In { static void f() { PASS(); ASSERT_STREQ("a", "a"); ASSERT_TRUE(true); ASSERT_FALSE(false); ASSERT_LT(1, 2); } }; In::f(); '
        'return &Caitlyn::Test::TestRegistry::Instance() == &Caitlyn::Test::TestRegistry::Instance();',
        '@TEST',
        '@TEST_F',
    ],
    "Traits": [
        'return Caitlyn::IsSameType<int, Caitlyn::RemoveReferenceType<int&>>::Value && Caitlyn::HasLessOperatorType<std::string>::Value;',
        'return Caitlyn::HasOStreamOperatorType<int>::Value && !Caitlyn::HasOStreamOperatorType<std::vector<int>>::Value && Caitlyn::HasStr<std::ostringstream>();',
    ],
    "Utility": [
        'return Caitlyn::cmp_less(-1, 1u) && !Caitlyn::cmp_eq(-1, 4294967295u);',
        'const auto x = Caitlyn::Random<int>(3, 5); return x >= 3 && x <= 5 && Caitlyn::RandomBoolean(1.0);',
    ],
    "Algorithms": ['std::vector<int> v{3, 1, 2}; std::sort(v.begin(), v.end()); return v[0] == 1;'],
    "DateTime": ['return std::chrono::seconds(60) == std::chrono::minutes(1);'],
    "Threading": ['std::mutex m; std::lock_guard<std::mutex> l(m); return std::thread::hardware_concurrency() != ~0u;'],
    "System": ['Caitlyn::Int32 x = 4; Caitlyn::SizeType n = 2; return x + n == 6;'],
}
# the types a header makes printable must be seen as printable, whatever came first
BOTH = [
    (("Traits", "String"), 'return Caitlyn::HasOStreamOperatorType<Caitlyn::String>::Value && Caitlyn::HasIStreamOperatorType<Caitlyn::String>::Value && '
                           'Caitlyn::HasLessOperatorType<Caitlyn::String>::Value && Caitlyn::HasAddOperatorType<Caitlyn::String>::Value;'),
    (("Traits", "Char"), 'return Caitlyn::HasOStreamOperatorType<Caitlyn::Char>::Value && Caitlyn::HasEqualOperatorType<Caitlyn::Char>::Value;'),
    (("Traits", "Numeric"), 'return Caitlyn::HasOStreamOperatorType<Caitlyn::BigInteger>::Value && Caitlyn::HasModulusOperatorType<Caitlyn::BigInteger>::Value && '
                            'Caitlyn::HasLessOperatorType<Caitlyn::BigFloat>::Value && Caitlyn::HasOStreamOperatorType<Caitlyn::BigFloat>::Value;'),
    (("Traits", "Serializing"), 'return Caitlyn::HasOStreamOperatorType<Caitlyn::JsonDocument>::Value && Caitlyn::HasIStreamOperatorType<Caitlyn::JsonDocument>::Value;'),
    (("Testing", "String"), 'struct In { static void f() { ASSERT_EQ(Caitlyn::String{"a"}, Caitlyn::String{"a"}); ASSERT_EQ_PRINTABLE("b"_str, "b"_str); } }; In::f(); return true;'),
    (("Testing", "Numeric"), 'struct In { static void f() { ASSERT_EQ_PRINTABLE("5"_bigint, "5"_bigint); ASSERT_LT("1.5"_bigfloat, "2"_bigfloat); } }; In::f(); return true;'),
    (("Error", "String"), 'Caitlyn::Expected<int, Caitlyn::String> e = Caitlyn::MakeError("no"); return e.GetError() == "no";'),
    (("Memory", "String"), 'Caitlyn::SharedPtr<Caitlyn::String> p{new Caitlyn::String{"s"}}; return *p == "s";'),
    (("IO", "Numeric"), 'std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf()); Caitlyn::OutputStream::Write("1234"_bigint); std::cout.rdbuf(old); return o.str() == "1234";'),
    (("Collections", "String"), 'std::map<Caitlyn::String, Caitlyn::String> m; m["k"] = "v"; return *Caitlyn::GetMapKeys(m).begin() == "k";'),
]
INSIDE = ["Algorithms", "Collections", "DateTime", "Error", "File", "IO", "Memory", "Numeric", "String", "System", "Threading", "Traits", "Utility", "Serializing", "Char"]
STD_HEADERS = ["string", "iostream", "vector", "map", "algorithm", "memory", "thread", "cstring", "cmath", "functional", "type_traits", "sstream", "regex", "new",
               "tuple", "cassert", "utility", "climits", "atomic", "chrono", "complex", "locale"]
# what a user's own code may look like around it
GROUND = ["", "", "struct Thing { int n; }; inline std::ostream& operator<<(std::ostream& s, const Thing& t) { return s << t.n; } "
          "inline bool operator==(const Thing& a, const Thing& b) { return a.n == b.n; } inline bool operator<(const Thing& a, const Thing& b) { return a.n < b.n; } "
          "inline Thing operator+(const Thing& a, const Thing& b) { return Thing{a.n + b.n}; }",
          "struct String {}; struct Char {}; struct File {}; template <class T> struct SharedPtr {}; inline int Split() { return 1; } enum { Random, Format };",
          "using namespace Caitlyn;", "namespace Test { struct Thing {}; } namespace Json {}"]
FLAGS = [(), (), (), ("-O2",), ("-pedantic-errors",), ("-funsigned-char",), ("-D_GLIBCXX_DEBUG",), ("-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-g1")]


def offered(headers):
    s = set(headers)
    if "Caitlyn" in s:
        s |= set(INSIDE)
    return s


class Unit:
    def __init__(self, r, k, force=None):
        self.k = k
        n = r.choice([1, 1, 2, 3, 3, 5, 8, 17])
        self.headers = [force] if force else [r.choice(HEADERS) for _ in range(n)]
        if not force and r.random() < 0.25:
            self.headers += r.choice([self.headers, ["Caitlyn"], [self.headers[0]]])
        self.before = [] if force else r.sample(STD_HEADERS, r.choice([0, 0, 1, 4]))
        self.late = r.random() < 0.5           # standard headers the uses need come last
        self.ground = r.choice(GROUND)
        have = offered(self.headers)
        uses = []
        for h in sorted(have):
            for u in USES.get(h, []):
                if r.random() < (0.6 if len(have) < 6 else 0.3):
                    uses.append((h, u))
        for need, u in BOTH:
            if all(x in have for x in need) and r.random() < 0.6:
                uses.append(("+".join(need), u))
        r.shuffle(uses)
        self.uses = uses
        # standard headers that sort, sum and print stand for themselves
        self.std = ["algorithm", "numeric", "iterator", "sstream", "iostream", "vector", "map", "set", "unordered_map", "string", "cstdio", "functional", "chrono", "mutex",
                    "thread"] if self.ground or uses else []

    def text(self):
        out = ["#include <%s>" % h for h in self.before]
        if not self.late:
            out += ["#include <%s>" % h for h in self.std]
        out += ["#include <Caitlyn/%s>" % h for h in self.headers]
        if self.late:
            out += ["#include <%s>" % h for h in self.std]
        out.append('#define NAME "scratch%d"' % self.k)
        out.append("namespace user%d\n{\n%s" % (self.k, self.ground))
        calls = []
        for i, (h, u) in enumerate(self.uses):
            if u == "@TEST":
                out.append("TEST(Unit%d, Case%d) { ASSERT_EQ(%d, %d); }" % (self.k, i, i, i))
                continue
            if u == "@TEST_F":
                out.append("struct Fixture%d_%d { int v = 3; };\nTEST_F(Fixture%d_%d, Same) { ASSERT_EQ(v, 3); }" % (self.k, i, self.k, i))
                continue
            out.append("static bool use%d() { %s }" % (i, u))
            calls.append(i)
        out.append("int run()\n{\n    int bad = 0;")
        for i in calls:
            out.append('    if (!use%d()) { std::printf("WRONG unit %d use %d\\n"); ++bad; }' % (i, self.k, i))
        if "Testing" in self.headers and self.k == 0:
            out.append("    if (Caitlyn::Test::TestRegistry::Instance().RunAll() != 0) { ++bad; }")
        out.append("    return bad;\n}\n}")
        return "\n".join(out) + "\n"

    def describe(self):
        return " ".join(self.headers)


class Prog:
    def __init__(self, seed_text):
        r = random.Random(seed_text)
        self.cxx, self.std, self.flags = r.choice(COMPILERS), r.choice(STDS), r.choice(FLAGS)
        self.units = [Unit(r, k) for k in range(r.choice([1, 2, 2, 3]))]
        if len(self.units) > 1 and r.random() < 0.4:
            self.units[1].headers = list(self.units[0].headers)
            self.units[1].uses = list(self.units[0].uses)
            self.units[1].std = self.units[0].std

    def program(self):
        files, units = {}, []
        for u in self.units:
            files["u%d.cpp" % u.k] = u.text()
            units.append("u%d.cpp" % u.k)
        files["main.cpp"] = "#include <cstdio>\n" + "".join("namespace user%d { int run(); }\n" % u.k for u in self.units) + "int main()\n{\n    int bad = 0;\n" + \
            "".join("    bad += user%d::run();\n" % u.k for u in self.units) + '    std::printf("done\\n");\n    return bad ? 1 : 0;\n}\n'
        units.append("main.cpp")
        extra = ("-pthread",)
        if self.std >= "c++17":
            extra += ("-ltbb",)
        return Program(files, units, self.cxx, self.std, self.flags, link=extra)

    def describe(self):
        return "%s %s %s: %s" % (self.cxx, self.std, " ".join(self.flags), " | ".join(u.describe() for u in self.units))


class Alone(Prog):
    """one header, nothing else"""

    def __init__(self, header, std, cxx):
        r = random.Random(0)
        self.cxx, self.std, self.flags = cxx, std, ()
        u = Unit(r, 0, header)
        u.ground, u.uses, u.std, u.before = "", [], [], []
        self.units = [u]


def failing(p, root):
    res = execute(p.program(), root)
    if not res.compiled:
        return "does not compile and link\n" + "\n".join(x for x in res.out.splitlines() if "error" in x or "undefined" in x or "multiple" in x)[:1500]
    if res.blocked:
        return None
    if res.rc != 0 or "done" not in res.out:
        return "the program is wrong (exit status %d)\n%s" % (res.rc, res.out[:1500])
    return None


def shrink(p, msg, root):
    end = time.time() + 150

    def attempt(undo):
        nonlocal msg
        if time.time() > end:
            undo()
            return False
        m = failing(p, root)
        if m:
            msg = m
            return True
        undo()
        return False
    again = True
    while again and time.time() < end:
        again = False
        for u in list(p.units):
            if len(p.units) > 1:
                old = p.units
                p.units = [x for x in old if x is not u]

                def undo(o=old):
                    p.units = o
                again |= attempt(undo)
        for u in p.units:
            for name in ("uses", "headers", "before"):
                size = len(getattr(u, name))
                while size >= 1:
                    i = 0
                    while i < len(getattr(u, name)):
                        old = getattr(u, name)
                        new = old[:i] + old[i + size:]
                        if name == "headers":
                            have = offered(new)
                            if not new or any(not all(x in have for x in h.split("+")) for h, _ in u.uses):
                                i += size
                                continue
                        setattr(u, name, new)

                        def undo(u=u, name=name, old=old):
                            setattr(u, name, old)
                        if attempt(undo):
                            again = True
                        else:
                            i += size
                    size //= 2
            if u.ground:
                old = u.ground
                u.ground = ""

                def undo(u=u, old=old):
                    u.ground = old
                again |= attempt(undo)
    return msg


BUDGET = "85 fixed header/standard programs and 110 random programs quick, 1400 random thorough"
RULE = ("every public header alone under every standard, and programs of 1-3 units with 1-17 headers each in random order with repetitions, "
        "between standard headers and user code, using what they include; non-trivial: several headers or several units")


def check(tier):
    t0 = time.time()
    n = 110 if tier == "quick" else 1400
    root = scratch("H01")
    try:
        r = random.Random("H01 alone %d" % seed())
        todo = []
        for h in HEADERS:
            for s in STDS:
                for c in ([r.choice(COMPILERS)] if tier == "quick" else COMPILERS):
                    todo.append(Alone(h, s, c))
        alone = len(todo)
        todo += [Prog("H01 %d %d" % (seed(), k)) for k in range(n)]
        state = dict(stop=False)

        def work(p):
            if state["stop"]:
                return p, None, False
            m = failing(p, root)
            if m:
                state["stop"] = True
            return p, m, True
        text, total, distinct, kinds, samples = None, 0, set(), collections.Counter(), []
        for i, (p, m, ran) in enumerate(pool_map(work, todo)):
            if not ran:
                continue
            total += 1
            kinds[p.cxx + " " + p.std] += 1
            if i >= alone:
                if len(p.units) > 1 or len(p.units[0].headers) > 1:
                    distinct.add(p.describe())
                kinds["%d units" % len(p.units)] += 1
                kinds["uses"] += sum(len(u.uses) for u in p.units)
                for u in p.units:
                    for h in set(u.headers):
                        kinds["unit with " + h] += 1
                if len(samples) < 8:
                    samples.append(p.describe())
            else:
                kinds["alone"] += 1
            if m and text is None:
                if all(failing(p, root) for _ in range(2)):
                    m = shrink(p, m, root)
                    text = "property H01\n%s\nreplay: python3 check.py --replay <this file>\n\n--- case ---\n%s\n--- program ---\n%s\n" % (
                        m, p.describe(), p.program().text())
        cov = dict(evaluations=total, distinct_nontrivial=len(distinct), samples=samples, classes=dict(kinds),
                   rule=RULE)
        return verdict("H01", tier, t0, cov, text)
    finally:
        shutil.rmtree(root, ignore_errors=True)
