// S03: comparisons of strings, C texts and characters form the code point order.
#include <algorithm>
#include <Caitlyn/String>
#include "gen.h"

using namespace pbt;
using Caitlyn::Char;
using Caitlyn::String;

static int sign(const Cps& a, const Cps& b)
{
    return a < b ? -1 : b < a ? 1 : 0;
}

template <typename A, typename B>
static void six(Ctx& c, const A& a, const B& b, int want, const std::string& what)
{
    auto one = [&](bool got, bool expected, const char* op)
    {
        if (got != expected)
        {
            c.fail(what + ": operator" + op + " answers " + (got ? "true" : "false"));
        }
    };
    one(a == b, want == 0, "==");
    one(a != b, want != 0, "!=");
    one(a < b, want < 0, "<");
    one(a > b, want > 0, ">");
    one(a <= b, want <= 0, "<=");
    one(a >= b, want >= 0, ">=");
}

// A text close to the given one
static Cps neighbour(Src& s, const Cps& v)
{
    Cps w = v;
    switch (s.below(6))
    {
        case 0:
            return w;
        case 1:
            if (!w.empty())
            {
                w.resize(s.below(w.size()));
            }
            return w;
        case 2:
            w.push_back(code_point(s));
            return w;
        case 3:
            if (!w.empty())
            {
                w[s.below(w.size())] = code_point(s);
            }
            return w;
        case 4:
            if (!w.empty())
            {
                auto& x = w[s.below(w.size())];
                const uint32_t y = s.flip() ? x + 1 : x - 1;
                if (y != 0 && y < 0x110000 && (y < 0xD800 || y > 0xDFFF))
                {
                    x = y;
                }
            }
            return w;
        default:
            return text(s, 10);
    }
}

static void run(Src& s, Ctx& c)
{
    const Cps a = stretched(s, text(s, 40), 9000);
    const Cps b = neighbour(s, a);
    const Cps d = neighbour(s, s.flip() ? a : b);
    const CText ta(utf8(a)), tb(utf8(b)), td(utf8(d));
    const String sa(ta.get()), sb(tb.get()), sd(td.get());
    c.log << show(utf8(a)) << " vs " << show(utf8(b)) << " vs " << show(utf8(d));
    const int ab = sign(a, b);
    six(c, sa, sb, ab, "a, b");
    six(c, sb, sa, -ab, "b, a");
    six(c, sb, sd, sign(b, d), "b, d");
    six(c, sa, sd, sign(a, d), "a, d");
    six(c, sa, sa, 0, "a, a");
    six(c, sa, tb.get(), ab, "a, C text b");
    six(c, sb, ta.get(), -ab, "b, C text a");
    six(c, sa, ta.get(), 0, "a, C text a");
    six(c, sd, ta.get(), sign(d, a), "d, C text a");
    // characters
    const uint32_t x = code_point(s);
    uint32_t y = code_point(s);
    switch (s.below(4))
    {
        case 1:
            y = x;
            break;
        case 2:
            y = x < 0x10FFFF && x + 1 != 0xD800 ? x + 1 : x;
            break;
        case 3:
            y = x > 1 && x - 1 != 0xDFFF ? x - 1 : x;
            break;
    }
    c.log << "; characters " << x << ", " << y;
    const Char cx(static_cast<Caitlyn::CodePoint>(x)), cy(static_cast<Caitlyn::CodePoint>(y));
    six(c, cx, cy, x < y ? -1 : y < x ? 1 : 0, "characters");
    six(c, cy, cx, y < x ? -1 : x < y ? 1 : 0, "swapped characters");
    // sorting
    const size_t n = s.below(9);
    std::vector<Cps> list;
    std::vector<String> strings;
    for (size_t i = 0; i < n; ++i)
    {
        list.push_back(i == 0 || s.flip() ? text(s, 6) : neighbour(s, list[s.below(list.size())]));
        const CText t(utf8(list.back()));
        strings.emplace_back(t.get());
    }
    std::stable_sort(list.begin(), list.end());
    std::stable_sort(strings.begin(), strings.end());
    for (size_t i = 0; i < n; ++i)
    {
        c.eq(strings[i].str(), utf8(list[i]), "sorted list");
    }
    const bool prefix = a != b && std::equal(a.begin(), a.begin() + static_cast<long>(std::min(a.size(), b.size())), b.begin());
    c.label_if(ab == 0, "equal");
    c.label_if(prefix, "one is a prefix of the other");
    bool lengths = false;
    for (size_t i = 0; i < std::min(a.size(), b.size()); ++i)
    {
        if (a[i] != b[i])
        {
            lengths = utf8(a[i]).size() != utf8(b[i]).size();
            break;
        }
    }
    c.label_if(lengths, "first difference between different encoded lengths");
    c.nontrivial = !a.empty() && !b.empty() && a[0] == b[0];
}

static const Config cfg{"S03", run, 0, nullptr, false, 20};
PBT_MAIN(cfg)
