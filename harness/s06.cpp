// S06: text utilities.
#include <Caitlyn/String>
#include "gen.h"
#include "unidata.h"

using namespace pbt;
using Caitlyn::Char;
using Caitlyn::String;

static std::string narrow(Src& s, size_t max, const char* alphabet)
{
    std::string r(s.length(max), 'a');
    const size_t n = strlen(alphabet);
    for (auto& ch : r)
    {
        ch = alphabet[s.below(n)];
    }
    return r;
}
static std::string bytes(Src& s, size_t max)
{
    std::string r(s.length(max), 'a');
    for (auto& ch : r)
    {
        ch = static_cast<char>(s.range(0, 255));
    }
    return r;
}

static void split(Src& s, Ctx& c)
{
    const size_t kind = s.below(3);
    const char delim = kind == 0 ? ',' : kind == 1 ? static_cast<char>(s.range(0, 255)) : '\n';
    std::string t = kind == 2 ? bytes(s, 40) : narrow(s, 60, "a,b,\n,");
    if (kind == 1)
    {
        for (auto& ch : t)
        {
            if (ch == ',')
            {
                ch = delim;
            }
        }
    }
    if (const size_t more = surplus(s))
    {
        t.insert(s.below(t.size() + 1), more, s.flip() ? delim : 'x');
    }
    c.log << "split " << show(t) << " at " << int(static_cast<unsigned char>(delim));
    const auto parts = Caitlyn::Split(t, delim);
    std::string joined;
    for (size_t i = 0; i < parts.size(); ++i)
    {
        c.check(parts[i].find(delim) == std::string::npos, "a piece contains the delimiter");
        joined += (i ? std::string(1, delim) : "") + parts[i];
    }
    if (joined != t && joined + delim != t)
    {
        c.fail("joining the pieces gives " + show(joined));
    }
    // one piece per delimiter, the last one only if something follows it
    size_t pieces = static_cast<size_t>(std::count(t.begin(), t.end(), delim));
    pieces += !t.empty() && t.back() != delim;
    c.eq(parts.size(), pieces, "number of pieces");
    c.label("split");
    c.label_if(!t.empty() && t.back() == delim, "trailing delimiter");
    c.nontrivial = parts.size() > 1;
}

static void repeat(Src& s, Ctx& c)
{
    const std::string t = s.flip() ? utf8_text(s, 12) : bytes(s, 6);
    const size_t n = s.length(300) + surplus(s, t.size() > 20 ? 1000 : 70000);
    c.log << "repeat " << show(t) << " " << n << " times";
    std::string want;
    for (size_t i = 0; i < n; ++i)
    {
        want += t;
    }
    c.eq(Caitlyn::Repeat(t, n), want, "Repeat");
    c.label("repeat");
    c.nontrivial = n > 1 && !t.empty();
}

static void search(Src& s, Ctx& c)
{
    // Small alphabets and periodic patterns exercise the failure function
    const char* alphabet = s.flip() ? "ab" : "abc";
    std::string p = narrow(s, 24, alphabet), t;
    if (s.chance(1, 3))
    {
        const std::string unit = narrow(s, 4, alphabet);
        p.clear();
        const size_t n = 1 + s.below(5);
        for (size_t i = 0; i < n; ++i)
        {
            p += unit;
        }
        if (!p.empty() && s.flip())
        {
            p.pop_back();
        }
    }
    if (p.empty())
    {
        p = "a";
    }
    // texts made of partial matches
    const size_t n = s.below(8);
    for (size_t i = 0; i < n; ++i)
    {
        if (s.flip())
        {
            const size_t from = s.below(p.size()), len = s.below(p.size() - from + 1);
            t += p.substr(from, len);
        }
        else
        {
            t += narrow(s, 6, alphabet);
        }
    }
    if (s.chance(1, 10))
    {
        for (auto& ch : t)
        {
            ch = ch == 'a' ? '\0' : ch == 'b' ? '\xFF' : ch;
        }
        for (auto& ch : p)
        {
            ch = ch == 'a' ? '\0' : ch == 'b' ? '\xFF' : ch;
        }
    }
    if (const size_t more = surplus(s))
    {
        // a long run in the text, and sometimes one as long in the pattern
        const size_t at = s.below(t.size() + 1);
        t.insert(at, more, p[0]);
        if (s.flip())
        {
            p.insert(0, more - s.below(2), p[0]);
        }
    }
    c.log << "search " << show(p) << " in " << show(t);
    const bool occurs = t.find(p) != std::string::npos;
    c.eq(Caitlyn::kmp(p, t), occurs, "pattern search");
    c.label(occurs ? "pattern occurs" : "pattern does not occur");
    c.nontrivial = p.size() > 1 && t.size() >= p.size();
}

static bool unicode_space(uint32_t x)
{
    return (x >= 9 && x <= 13) || x == 0x20 || x == 0x85 || x == 0xA0 || x == 0x1680 || (x >= 0x2000 && x <= 0x200A) || x == 0x2028 ||
           x == 0x2029 || x == 0x202F || x == 0x205F || x == 0x3000;
}
static uint32_t blankish(Src& s)
{
    static const uint32_t b[] = {' ', '\t', '\n', 0x0B, 0x0C, '\r', 0x85, 0xA0, 0x1680, 0x2000, 0x2007, 0x200A, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000, 0x200B, 0xFEFF, 0x180E, 8, 0x0E, 0x1F};
    return s.flip() ? ' ' : b[s.below(sizeof b / sizeof *b)];
}

static void trim(Src& s, Ctx& c)
{
    Cps v;
    const size_t lead = s.below(5), mid = s.below(5), trail = s.below(5);
    if (const size_t more = surplus(s))
    {
        v.assign(more, blankish(s));
    }
    for (size_t i = 0; i < lead; ++i)
    {
        v.push_back(blankish(s));
    }
    for (size_t i = 0; i < mid; ++i)
    {
        v.push_back(s.chance(1, 4) ? blankish(s) : code_point(s));
    }
    for (size_t i = 0; i < trail; ++i)
    {
        v.push_back(blankish(s));
    }
    if (const size_t more = surplus(s))
    {
        v.insert(v.end(), more, blankish(s));
    }
    size_t first = v.size(), last = v.size();
    for (size_t i = 0; i < v.size(); ++i)
    {
        if (!unicode_space(v[i]))
        {
            first = std::min(first, i);
            last = i;
        }
    }
    c.log << "trim " << show(utf8(v));
    const CText t(utf8(v));
    const String str(t.get());
    c.eq(Caitlyn::FindFirstNonSpace(str), first, "first non-blank position");
    c.eq(Caitlyn::FindLastNonSpace(str), last, "last non-blank position");
    c.label("trim");
    c.label_if(first == v.size(), "nothing but blanks");
    c.nontrivial = first > 0 && first < v.size() && last + 1 < v.size();
}

static void number(Src& s, Ctx& c)
{
    Cps v(s.length(12));
    static const uint32_t other[] = {'a', '-', '+', '.', ' ', 0x2F, 0x3A, 0xB2, 0x2460, 0x4E00, 0x66A, 0x65F};
    for (auto& x : v)
    {
        x = s.chance(1, 3) ? static_cast<uint32_t>(0x660 + s.below(10)) : static_cast<uint32_t>('0' + s.below(10));
    }
    v.insert(v.end(), surplus(s), '7');
    const size_t bad = s.below(3);
    if (bad == 1 && !v.empty())
    {
        v[s.below(v.size())] = other[s.below(sizeof other / sizeof *other)];
    }
    bool all = !v.empty();
    for (auto x : v)
    {
        all &= (x >= '0' && x <= '9') || (x >= 0x660 && x <= 0x669);
    }
    c.log << "number " << show(utf8(v));
    const CText t(utf8(v));
    c.eq(Caitlyn::IsNumber(String(t.get())), all, "IsNumber");
    c.label("number");
    c.nontrivial = v.size() > 1;
}

static int hexval(uint32_t x)
{
    return x >= '0' && x <= '9' ? int(x - '0') : x >= 'a' && x <= 'f' ? int(x - 'a' + 10) : x >= 'A' && x <= 'F' ? int(x - 'A' + 10) : -1;
}

static void escapes(Src& s, Ctx& c)
{
    Cps v;
    const size_t n = s.length(20);
    size_t count = 0;
    v.assign(surplus(s), 'x');
    for (size_t i = 0; i < n; ++i)
    {
        switch (s.weighted({4, 6, 3, 2, 1}))
        {
            case 0:
                v.push_back(code_point(s));
                break;
            case 1:
                v.push_back('\\');
                v.push_back(static_cast<uint32_t>("\"?\\/abfnrtvuxqN0'"[s.below(17)]));
                break;
            case 2:
            {
                v.push_back('\\');
                v.push_back('u');
                const size_t digits = s.chance(1, 3) ? s.below(5) : 4;
                for (size_t k = 0; k < digits; ++k)
                {
                    v.push_back(static_cast<uint32_t>("0123456789abcdefABCDEF"[s.below(22)]));
                }
                break;
            }
            case 3:
                v.push_back('\\');
                break;
            default:
                v.push_back('\\');
                v.push_back(code_point(s));
        }
    }
    std::string want;
    for (size_t i = 0; i < v.size(); ++i)
    {
        if (v[i] != '\\' || i + 1 == v.size())
        {
            put_utf8(want, v[i]);
            continue;
        }
        const uint32_t e = v[++i];
        const char* from = "\"?\\/abfnrtv";
        const char* to = "\"?\\/\a\b\f\n\r\t\v";
        const char* at = e < 0x80 ? strchr(from, static_cast<int>(e)) : nullptr;
        if (at)
        {
            want += to[at - from];
            ++count;
            continue;
        }
        if (e == 'u' && i + 4 < v.size() && hexval(v[i + 1]) >= 0 && hexval(v[i + 2]) >= 0 && hexval(v[i + 3]) >= 0 && hexval(v[i + 4]) >= 0)
        {
            const uint32_t x = static_cast<uint32_t>(hexval(v[i + 1]) << 12 | hexval(v[i + 2]) << 8 | hexval(v[i + 3]) << 4 | hexval(v[i + 4]));
            if (x == 0 || (x >= 0xD800 && x <= 0xDFFF))
            {
                throw Discard{}; // denotes no character
            }
            put_utf8(want, x);
            i += 4;
            ++count;
            continue;
        }
        want += '\\';
        put_utf8(want, e);
    }
    c.log << "escapes " << show(utf8(v));
    const CText t(utf8(v));
    c.eq(Caitlyn::EscapeString(String(t.get())).str(), want, "EscapeString");
    c.label("escapes");
    c.nontrivial = count > 0 && v.size() > count * 2;
}

static void run(Src& s, Ctx& c)
{
    switch (s.weighted({2, 1, 3, 2, 1, 3}))
    {
        case 0:
            return split(s, c);
        case 1:
            return repeat(s, c);
        case 2:
            return search(s, c);
        case 3:
            return trim(s, c);
        case 4:
            return number(s, c);
        default:
            return escapes(s, c);
    }
}

static const Config cfg{"S06", run, 0, nullptr, false, 20};
PBT_MAIN(cfg)
