// Operands and bookkeeping of the generated assertions of R02.
#ifndef GEN_ASSERTS_H_
#define GEN_ASSERTS_H_

#include <cstdio>
#include <iostream>
#include <limits>
#include <memory>
#include <string>
#include <vector>

#include <Caitlyn/Testing>

#ifdef STUB_ASSERTS // to tell an invalid operand from an assertion that does not take it
#include <sstream>
template <class A, class B>
void stub_show(const A& a, const B& b)
{
    std::ostringstream o;
    o << a << b;
}
#undef ASSERT_TRUE
#undef ASSERT_FALSE
#undef ASSERT_EQ
#undef ASSERT_NE
#undef ASSERT_LT
#undef ASSERT_LE
#undef ASSERT_GT
#undef ASSERT_GE
#undef ASSERT_EQ_PRINTABLE
#undef ASSERT_STREQ
#undef PASS
#undef FAIL
#undef FAIL_MESSAGE
#define ASSERT_TRUE(c) do { if (!(c)) throw 1; } while (false)
#define ASSERT_FALSE(c) do { if (c) throw 1; } while (false)
#define STUB_REL(a, b, op) do { if (!((a) op (b))) stub_show((a), (b)); } while (false)
#define ASSERT_EQ(a, b) STUB_REL(a, b, ==)
#define ASSERT_NE(a, b) STUB_REL(a, b, !=)
#define ASSERT_LT(a, b) STUB_REL(a, b, <)
#define ASSERT_LE(a, b) STUB_REL(a, b, <=)
#define ASSERT_GT(a, b) STUB_REL(a, b, >)
#define ASSERT_GE(a, b) STUB_REL(a, b, >=)
#define ASSERT_EQ_PRINTABLE(a, b) do { typedef decltype(a) A; typedef decltype(b) B; STUB_REL(a, b, ==); } while (false)
#define ASSERT_STREQ(a, b) do { const std::string x((a) ? (a) : ""), y((b) ? (b) : ""); } while (false)
#define PASS() do { } while (false)
#define FAIL() throw 1
#define FAIL_MESSAGE() std::cout
#endif

struct Entry
{
    int test;
    int step;
    int what;
};

inline std::vector<Entry>& journal()
{
    static std::vector<Entry> j;
    return j;
}

// an operand that is counted: what 1 is the left one, 2 the right one
template <class T>
T once(int test, int step, int what, T value)
{
    journal().push_back(Entry{test, step, what});
    return value;
}

// behind an assertion (0) or where nobody may come (9)
inline void mark(int test, int step, int what)
{
    journal().push_back(Entry{test, step, what});
}

// every relation says what it is told, so no assertion can use another one
struct Told
{
    int eq, ne, lt, le, gt, ge;
};
inline bool operator==(const Told& a, const Told&) { return a.eq != 0; }
inline bool operator!=(const Told& a, const Told&) { return a.ne != 0; }
inline bool operator<(const Told& a, const Told&) { return a.lt != 0; }
inline bool operator<=(const Told& a, const Told&) { return a.le != 0; }
inline bool operator>(const Told& a, const Told&) { return a.gt != 0; }
inline bool operator>=(const Told& a, const Told&) { return a.ge != 0; }
inline std::ostream& operator<<(std::ostream& s, const Told& t) { return s << t.eq << t.ne << t.lt << t.le << t.gt << t.ge; }

// classes with one relation only
#define ONLY(Name, op)                                                                     \
    struct Name                                                                            \
    {                                                                                      \
        int n;                                                                             \
    };                                                                                     \
    inline bool operator op(const Name& a, const Name& b) { return a.n op b.n; }           \
    inline std::ostream& operator<<(std::ostream& s, const Name& t) { return s << t.n; }
ONLY(OnlyEq, ==)
ONLY(OnlyNe, !=)
ONLY(OnlyLt, <)
ONLY(OnlyLe, <=)
ONLY(OnlyGt, >)
ONLY(OnlyGe, >=)

// may neither be copied nor moved
struct Pinned
{
    int n;
    explicit Pinned(int v) : n(v) {}
    Pinned(const Pinned&) = delete;
    bool operator==(const Pinned& o) const { return n == o.n; }
    bool operator!=(const Pinned& o) const { return n != o.n; }
    bool operator<(const Pinned& o) const { return n < o.n; }
    bool operator<=(const Pinned& o) const { return n <= o.n; }
    bool operator>(const Pinned& o) const { return n > o.n; }
    bool operator>=(const Pinned& o) const { return n >= o.n; }
};
inline std::ostream& operator<<(std::ostream& s, const Pinned& t) { return s << t.n; }

struct Truth
{
    bool b;
    explicit operator bool() const { return b; }
};

enum Color
{
    Red = 1,
    Green = 2,
    Blue = 3
};

static int spots[4] = {1, 2, 3, 4};

inline int finish(int rc)
{
    std::cout << "\n@@ result " << rc << "\n";
    for (const Entry& e : journal())
    {
        std::cout << "@@ " << e.test << " " << e.step << " " << e.what << "\n";
    }
    std::cout << "@@ end" << std::endl;
    return 0;
}

#endif
