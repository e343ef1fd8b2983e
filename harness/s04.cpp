// S04: classification and case mapping of every code point, and of whole strings.
#include <Caitlyn/String>
#include "gen.h"
#include "unidata.h"

using namespace pbt;
using Caitlyn::Char;
using Caitlyn::CodePoint;
using Caitlyn::String;

struct Uni
{
    std::map<uint32_t, UniRow> rows;
    Uni()
    {
        for (auto& r : UniRows)
        {
            rows[r.cp] = r;
        }
    }
    UniRow get(uint32_t c) const
    {
        auto it = rows.find(c);
        return it == rows.end() ? UniRow{c, c, c, 0, -1} : it->second;
    }
};
static const Uni& uni()
{
    static const Uni u;
    return u;
}

static bool unicode_space(uint32_t c)
{
    return (c >= 9 && c <= 13) || c == 0x20 || c == 0x85 || c == 0xA0 || c == 0x1680 || (c >= 0x2000 && c <= 0x200A) || c == 0x2028 ||
           c == 0x2029 || c == 0x202F || c == 0x205F || c == 0x3000;
}
static bool in(uint32_t c, uint32_t a, uint32_t b)
{
    return c >= a && c <= b;
}
// letters whose class is promised
static bool promised(uint32_t c)
{
    return in(c, 'A', 'Z') || in(c, 'a', 'z') || in(c, 0x410, 0x44F) || (in(c, 0x391, 0x3A9) && c != 0x3A2) ||
           (in(c, 0x3B1, 0x3C9) && c != 0x3C2) || (in(c, 0x1F00, 0x1F45)) || in(c, 0x1F60, 0x1F6F);
}
// letters whose mapping is promised
static bool promised_mapping(uint32_t c)
{
    return promised(c) || (in(c, 0x100, 0x177) && c != 0x149 && c != 0x138) || in(c, 0x1F70, 0x1F7D);
}
static uint32_t special_upper(uint32_t c)
{
    return c == 0xDF ? 0x1E9E : c == 0x149 ? 0x2BC : 0;
}

static std::string hex(uint32_t c)
{
    char b[16];
    snprintf(b, sizeof b, "U+%04X", c);
    return b;
}

static void one(uint32_t cp, Ctx& c)
{
    const CodePoint p = cp;
    const UniRow u = uni().get(cp);
    auto want = [&](bool ok, const char* what)
    {
        if (!ok)
        {
            c.fail(hex(cp) + ": " + what);
        }
    };
    want(Caitlyn::IsSpace(p) == unicode_space(cp), "whitespace classification is not Unicode's");
    const bool digit = Caitlyn::IsDigit(p);
    want(!digit || u.digit >= 0, "classified as a digit but no Unicode decimal digit");
    if (u.digit >= 0)
    {
        const uint32_t zero = cp - static_cast<uint32_t>(u.digit);
        for (uint32_t k = 0; k < 10; ++k)
        {
            want(Caitlyn::IsDigit(static_cast<CodePoint>(zero + k)) == digit, "digits of one script are not recognised all ten or not at all");
        }
    }
    want(!in(cp, '0', '9') || digit, "an ASCII digit is not classified as digit");
    want(Caitlyn::ToDigit(p) == (in(cp, '0', '9') ? static_cast<int>(cp - '0') : -1), "digit value");
    const bool up = Caitlyn::IsUppercase(p), low = Caitlyn::IsLowercase(p);
    const CodePoint to_up = Caitlyn::ToUppercase(p), to_low = Caitlyn::ToLowercase(p);
    want(!up || u.kind == 1, "classified as upper case but no upper-case letter");
    want(!low || u.kind == 2, "classified as lower case but no lower-case letter");
    want(Caitlyn::IsLetter(p) == (up || low), "IsLetter disagrees with the case classes");
    if (promised(cp))
    {
        want(up == (u.kind == 1) && low == (u.kind == 2), "letter of a supported alphabet not classified by its case");
    }
    if (promised_mapping(cp))
    {
        want(to_up == u.upper, "upper case of a supported letter");
        want(to_low == u.lower, "lower case of a supported letter");
    }
    if (special_upper(cp))
    {
        want(to_up == special_upper(cp), "upper case of a special letter");
    }
    else
    {
        want(to_up == cp || to_up == u.upper, "upper case is not the Unicode case partner");
        want(!low || to_up == u.upper, "classified as lower case but not mapped to its partner");
    }
    want(to_low == cp || to_low == u.lower, "lower case is not the Unicode case partner");
    want(!up || to_low == u.lower, "classified as upper case but not mapped to its partner");
    if (cp != 0 && !in(cp, 0xD800, 0xDFFF))
    {
        const Char ch(p);
        want(Caitlyn::ToUppercase(ch).str() == utf8(to_up), "upper case of the character");
        want(Caitlyn::ToLowercase(ch).str() == utf8(to_low), "lower case of the character");
    }
}

static const uint32_t Chunk = 4096;

static void chunk(uint64_t i, Ctx& c)
{
    const uint32_t first = static_cast<uint32_t>(i) * Chunk;
    for (uint32_t k = 0; k < Chunk; ++k)
    {
        one(first + k, c);
    }
    c.log << "all code points " << hex(first) << ".." << hex(first + Chunk - 1);
    c.label("chunk of 4096 code points");
    c.nontrivial = true;
}

static void run(Src& s, Ctx& c)
{
    Cps v(s.length(60)), up, low;
    bool changes = false, multi = false;
    for (auto& x : v)
    {
        switch (s.below(5))
        {
            case 0:
                x = code_point(s);
                break;
            case 1:
                x = UniRows[s.below(sizeof UniRows / sizeof *UniRows)].cp;
                break;
            case 2:
                x = static_cast<uint32_t>(s.range(0x100, 0x17F));
                break;
            case 3:
                x = static_cast<uint32_t>(s.flip() ? s.range(0x390, 0x3CF) : s.range(0x410, 0x44F));
                break;
            default:
            {
                static const uint32_t special[] = {0xDF, 0x130, 0x131, 0x149, 0x1E9E, 0x212A, 0x212B, 0x3C2, 0x1F70, 0x1F78, 0x1FBA, 0x138};
                x = special[s.below(sizeof special / sizeof *special)];
            }
        }
        up.push_back(Caitlyn::ToUppercase(static_cast<CodePoint>(x)));
        low.push_back(Caitlyn::ToLowercase(static_cast<CodePoint>(x)));
        changes |= up.back() != x || low.back() != x;
        multi |= x > 0x7F;
    }
    if (const size_t more = v.empty() ? 0 : surplus(s))
    {
        v.insert(v.begin(), more, v[0]);
        up.insert(up.begin(), more, up[0]);
        low.insert(low.begin(), more, low[0]);
    }
    const std::string bytes = utf8(v);
    c.log << show(bytes);
    const CText t(bytes);
    const String str(t.get());
    c.eq(str.ToUppercase().str(), utf8(up), "ToUppercase of the string");
    c.eq(str.ToUppercase().size(), v.size(), "length of the upper-case string");
    c.eq(str.ToLowercase().str(), utf8(low), "ToLowercase of the string");
    c.eq(str.ToLowercase().size(), v.size(), "length of the lower-case string");
    c.eq(str.str(), bytes, "the string itself after converting");
    c.label_if(changes, "conversion changes something");
    c.label_if(multi, "multi-byte");
    c.nontrivial = changes && multi;
}

static const Config cfg{"S04", run, 0x110000 / Chunk, chunk, false, 20};
PBT_MAIN(cfg)
