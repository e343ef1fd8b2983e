// U01: mixed-sign integer comparison is mathematically correct.
#include <limits>
#include <type_traits>
#include <Caitlyn/Utility>
#include "gen.h"

using namespace pbt;

using Wide = __int128;

static std::string name(Wide v)
{
    return v > static_cast<Wide>(INT64_MAX) ? std::to_string(static_cast<uint64_t>(v)) : std::to_string(static_cast<int64_t>(v));
}

template <typename T, typename U>
static void compare(Ctx& c, T t, U u)
{
    const Wide a = static_cast<Wide>(t), b = static_cast<Wide>(u);
    const bool got[6] = {Caitlyn::cmp_eq(t, u), Caitlyn::cmp_ne(t, u), Caitlyn::cmp_less(t, u), Caitlyn::cmp_greater(t, u), Caitlyn::cmp_le(t, u), Caitlyn::cmp_ge(t, u)};
    const bool want[6] = {a == b, a != b, a < b, a > b, a <= b, a >= b};
    static const char* const names[6] = {"cmp_eq", "cmp_ne", "cmp_less", "cmp_greater", "cmp_le", "cmp_ge"};
    for (int i = 0; i < 6; ++i)
    {
        if (got[i] != want[i])
        {
            c.fail(std::string(names[i]) + "(" + name(a) + ", " + name(b) + ") with " + (std::is_signed<T>::value ? "signed " : "unsigned ") + std::to_string(sizeof(T)) + " and " +
                   (std::is_signed<U>::value ? "signed " : "unsigned ") + std::to_string(sizeof(U)) + " bytes is " + (got[i] ? "true" : "false"));
        }
    }
}

// A value that fits both the pattern and the type
template <typename T>
static T value(Src& s, uint64_t other)
{
    uint64_t v = 0;
    switch (s.below(7))
    {
        case 0:
            v = s.below(8);
            break;
        case 1:
            v = static_cast<uint64_t>(-static_cast<int64_t>(s.below(8)));
            break;
        case 2: // around a power of two
            v = (uint64_t{1} << s.below(64)) + static_cast<uint64_t>(s.range(-2, 2));
            break;
        case 3:
            v = ~(uint64_t{1} << s.below(64)) + static_cast<uint64_t>(s.range(-2, 2));
            break;
        case 4: // the bits of the other one, possibly wrapped, extended or negated
            v = s.flip() ? other : static_cast<uint64_t>(0) - other;
            break;
        case 5:
            v = static_cast<uint64_t>(s.flip() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min()) + static_cast<uint64_t>(s.range(-1, 1));
            break;
        default:
            v = s.draw(UINT64_MAX) >> s.below(64);
            v = s.flip() ? v : static_cast<uint64_t>(0) - v;
    }
    return static_cast<T>(v);
}

template <typename T, typename U>
static void pair(Src& s, Ctx& c)
{
    const T t = value<T>(s, s.draw(UINT64_MAX));
    for (int i = 0; i < 6; ++i)
    {
        const U u = value<U>(s, static_cast<uint64_t>(t));
        c.log << name(static_cast<Wide>(t)) << (std::is_signed<T>::value ? "s" : "u") << sizeof(T) * 8 << " " << name(static_cast<Wide>(u)) << (std::is_signed<U>::value ? "s" : "u")
              << sizeof(U) * 8 << "; ";
        c.nontrivial |= std::is_signed<T>::value != std::is_signed<U>::value && (static_cast<Wide>(t) < 0 || static_cast<Wide>(u) < 0 || static_cast<Wide>(t) > INT32_MAX || static_cast<Wide>(u) > INT32_MAX);
        compare(c, t, u);
        compare(c, u, t);
    }
    compare(c, t, t);
}

using PairFn = void (*)(Src&, Ctx&);
template <typename... T>
struct List
{
};
template <typename T, typename... U>
static void row(std::vector<PairFn>& out, List<U...>)
{
    PairFn fns[] = {pair<T, U>...};
    out.insert(out.end(), std::begin(fns), std::end(fns));
}
template <typename... T>
static std::vector<PairFn> table(List<T...> l)
{
    std::vector<PairFn> out;
    int x[] = {(row<T>(out, l), 0)...};
    (void)x;
    return out;
}

static void run(Src& s, Ctx& c)
{
    static const std::vector<PairFn> all =
        table(List<int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, char, long long, unsigned long long, wchar_t, char16_t, char32_t>{});
    all[s.below(all.size())](s, c);
}

template <typename T, typename U>
static void all_u(Ctx& c, T t)
{
    for (int u = std::numeric_limits<U>::min(); u <= std::numeric_limits<U>::max(); ++u)
    {
        compare(c, t, static_cast<U>(u));
        compare(c, static_cast<U>(u), t);
    }
}
// Every pair of 8-bit numbers, and every 8-bit number with every 16-bit number
static void small(uint64_t index, Ctx& c)
{
    c.nontrivial = true;
    const auto bits = static_cast<uint8_t>(index);
    c.log << "8-bit pattern " << index << " against all 8-bit and 16-bit numbers";
    const auto i = static_cast<int8_t>(bits);
    all_u<int8_t, int8_t>(c, i);
    all_u<int8_t, uint8_t>(c, i);
    all_u<uint8_t, int8_t>(c, bits);
    all_u<uint8_t, uint8_t>(c, bits);
    all_u<int8_t, int16_t>(c, i);
    all_u<int8_t, uint16_t>(c, i);
    all_u<uint8_t, int16_t>(c, bits);
    all_u<uint8_t, uint16_t>(c, bits);
}

static const Config cfg{"U01", run, 256, small};
PBT_MAIN(cfg)
