// N02: big integers parse, print and compare faithfully.
#include <sstream>
#include <Caitlyn/Numeric>
#include "bignum.h"

using namespace pbt;
using Caitlyn::BigInteger;
using Caitlyn::String;

static BigInteger build(Src& s, const std::string& text)
{
    switch (s.below(4))
    {
        case 0:
            return BigInteger{String(text)};
        case 1:
        {
            const CText t(text);
            return BigInteger{t.get()};
        }
        case 2:
        {
            const BigInteger b{String(text)};
            BigInteger copy;
            copy = b;
            return copy;
        }
        default:
            return operator""_bigint(text.c_str(), text.size());
    }
}
static void prints(Ctx& c, const BigInteger& b, const std::string& want)
{
    c.eq(b.ToString().str(), want, "printed");
    std::ostringstream o;
    o << b;
    c.eq(o.str(), want, "streamed");
    if (want != "0")
    {
        c.eq(static_cast<size_t>(b.Size()), want.size() - (want[0] == '-'), "number of digits");
    }
}
static void order(Ctx& c, const BigInteger& a, const BigInteger& b, int want)
{
    c.eq(a == b, want == 0, "==");
    c.eq(a != b, want != 0, "!=");
    c.eq(a < b, want < 0, "<");
    c.eq(a > b, want > 0, ">");
    c.eq(a <= b, want <= 0, "<=");
    c.eq(a >= b, want >= 0, ">=");
    c.eq(a.Equal(b), want == 0, "Equal");
    c.eq(a.LessThan(b), want < 0, "LessThan");
    c.eq(a.GreaterThan(b), want > 0, "GreaterThan");
}
// The number with redundant zeros and signs
static std::string disguised(Src& s, const Big& v)
{
    std::string t = text_of(v);
    bool neg = false;
    if (t[0] == '-')
    {
        neg = true;
        t.erase(0, 1);
    }
    if (s.chance(1, 3))
    {
        t.insert(0, s.length(40), '0');
    }
    if (v == 0 && s.chance(1, 4))
    {
        neg = true;
    }
    return neg ? "-" + t : s.chance(1, 4) ? "+" + t : t;
}

static void run(Src& s, Ctx& c)
{
    switch (s.weighted({5, 3, 3}))
    {
        case 0: // texts and comparisons
        {
            const size_t cap = s.chance(1, 15) ? (s.chance(1, 20) ? 9000 : 600) : 40;
            std::vector<Big> ref;
            std::vector<BigInteger> lib;
            const size_t n = 2 + s.below(3);
            bool odd = false, close = false;
            for (size_t i = 0; i < n; ++i)
            {
                ref.push_back(i == 0 ? value_of(number(s, cap)) : related(s, ref[s.below(i)], cap));
                const std::string t = disguised(s, ref.back());
                odd |= t != text_of(ref.back());
                c.log << show(t) << " ";
                lib.push_back(build(s, t));
                prints(c, lib.back(), text_of(ref.back()));
            }
            for (size_t i = 0; i < n; ++i)
            {
                for (size_t j = 0; j < n; ++j)
                {
                    order(c, lib[i], lib[j], ref[i] < ref[j] ? -1 : ref[i] > ref[j] ? 1 : 0);
                    close |= i != j && ref[i].str().size() == ref[j].str().size() && ref[i].str().size() > 2;
                }
            }
            for (size_t i = 0; i < n; ++i)
            {
                prints(c, lib[i], text_of(ref[i]));
                order(c, lib[i], BigInteger{String(text_of(ref[i]))}, 0);
            }
            c.label_if(odd, "redundant zeros or sign");
            c.label_if(close, "same number of digits");
            c.nontrivial = close || odd;
            break;
        }
        case 1: // native numbers
        {
            uint64_t bits = s.pick<uint64_t>({0, 1, UINT64_MAX, uint64_t{1} << 63, INT64_MAX, UINT64_MAX - 1, (uint64_t{1} << 63) + 1, INT32_MAX, UINT32_MAX, uint64_t{1} << 32});
            if (s.flip())
            {
                bits = s.draw(UINT64_MAX) >> s.below(64);
            }
            const auto i = static_cast<int64_t>(bits);
            c.log << "native " << i << " / " << bits;
            const BigInteger a(i), b(bits);
            prints(c, a, std::to_string(i));
            prints(c, b, std::to_string(bits));
            order(c, a, BigInteger{std::to_string(i).c_str()}, 0);
            order(c, a, b, i < 0 ? -1 : 0);
            const int64_t j = static_cast<int64_t>(static_cast<uint64_t>(i) + static_cast<uint64_t>(s.range(-3, 3)));
            const BigInteger d(j);
            order(c, a, d, i < j ? -1 : i > j ? 1 : 0);
            order(c, BigInteger(), a, 0 < i ? -1 : 0 > i ? 1 : 0);
            c.label_if(i < 0, "negative or above the signed range");
            c.nontrivial = bits > 9;
            break;
        }
        default: // texts that are no numbers
        {
            std::string t = disguised(s, value_of(number(s, s.chance(1, 60) ? 3000 : 20)));
            bool planted = true;
            switch (s.below(5))
            {
                case 0:
                    t = s.pick<const char*>({"", "-", "+", "--1", "+-1", "-+1", "++1", "1-", "1+", "- 1", " 1", "1 ", "1.0", "1,000", "1_0", "1e5", "0x1F", "abc", "-a", "1\n", "\xD9\xA1",
                        "\xEF\xBC\x91", "\xE2\x88\x92" "1", "-\xC2\xB2", "1'0", "/", ":", "-/", "-:", "1/", "1:", ".", "-.", "--", "0-", "-0-"});
                    break;
                case 1:
                case 2: // a character that is no digit somewhere behind the sign
                {
                    const size_t from = t[0] == '-' || t[0] == '+' ? 1 : 0;
                    uint32_t cp;
                    do
                    {
                        cp = s.flip() ? code_point(s) : static_cast<uint32_t>(s.pick<int>({' ', '/', ':', '-', '+', '.', 'a', 0x661, 0x967, 0xFF15, 0xB2, 0x2460, 0x1D7D8, 'x'}));
                    } while (cp >= '0' && cp <= '9');
                    const size_t at = from + s.below(t.size() - from + 1);
                    if (at == 0 && (cp == '-' || cp == '+'))
                    {
                        throw Discard{};
                    }
                    t.insert(at, utf8(cp));
                    break;
                }
                case 3:
                    t = (s.flip() ? "-" : "+") + std::string(1, s.flip() ? '-' : '+') + t;
                    break;
                default:
                    t = utf8_text(s, 12);
                    for (unsigned char ch : t)
                    {
                        planted &= ch >= '0' && ch <= '9';
                    }
                    if (planted || t.empty() || t[0] == '-' || t[0] == '+')
                    {
                        throw Discard{};
                    }
            }
            c.log << "no number: " << show(t);
            c.must_throw([&] { BigInteger b{String(t)}; (void)b; }, "a text that is no number, as String");
            const CText raw(t);
            c.must_throw([&] { BigInteger b{raw.get()}; (void)b; }, "a text that is no number, as C text");
            c.label("refused");
            c.nontrivial = t.size() > 1;
        }
    }
}

static const Config cfg{"N02", run, 0, nullptr, true};
PBT_MAIN(cfg)
