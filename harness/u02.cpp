// U02: random values stay within the requested range and reach all of it.
#include <cmath>
#include <limits>
#include <Caitlyn/Utility>
#include "gen.h"

using namespace pbt;
namespace C = Caitlyn;

template <typename T>
static std::string num(T v)
{
    std::ostringstream o;
    o.precision(21);
    o << v;
    return o.str();
}

template <typename T>
static void integers(Src& s, Ctx& c, const char* type)
{
    using L = std::numeric_limits<T>;
    auto bound = [&]() -> T
    {
        switch (s.below(5))
        {
            case 0:
                return static_cast<T>(s.below(10));
            case 1:
                return static_cast<T>(L::is_signed ? -static_cast<int64_t>(s.below(10)) : static_cast<int64_t>(s.below(100)));
            case 2:
                return static_cast<T>(L::min() + static_cast<T>(s.below(4)));
            case 3:
                return static_cast<T>(L::max() - static_cast<T>(s.below(4)));
            default:
                return static_cast<T>(s.draw(UINT64_MAX) >> s.below(64));
        }
    };
    T lo = bound();
    T hi;
    if (s.flip()) // a small range
    {
        const uint64_t w = s.below(8);
        lo = lo > static_cast<T>(L::max() - 8) ? static_cast<T>(lo - 8) : lo;
        hi = static_cast<T>(lo + static_cast<T>(w));
    }
    else
    {
        hi = bound();
        if (hi < lo)
        {
            std::swap(lo, hi);
        }
    }
    if (s.chance(1, 12))
    {
        lo = L::min();
        hi = L::max();
    }
    const uint64_t width = static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo); // modulo 2^64, so right for negative ones
    const bool defaults = lo == L::min() && hi == L::max();
    c.log << "Random<" << type << ">(" << num(lo) << ", " << num(hi) << ")";
    const size_t cells = width < 8 ? static_cast<size_t>(width) + 1 : 8;
    const size_t draws = 60 * cells;
    std::vector<size_t> seen(cells);
    std::set<T> distinct;
    for (size_t i = 0; i < draws; ++i)
    {
        const T v = defaults && i % 2 ? C::Random<T>() : C::Random<T>(lo, hi);
        if (v < lo || v > hi)
        {
            c.fail("drew " + num(v));
        }
        const uint64_t at = static_cast<uint64_t>(v) - static_cast<uint64_t>(lo);
        const size_t cell = width < 8 ? static_cast<size_t>(at) : static_cast<size_t>(static_cast<unsigned __int128>(at) * 8 / (static_cast<unsigned __int128>(width) + 1));
        ++seen[cell];
        distinct.insert(v);
    }
    for (size_t i = 0; i < cells; ++i)
    {
        if (seen[i] == 0)
        {
            c.fail(std::to_string(draws) + " draws never reach " + (width < 8 ? num(static_cast<T>(lo + static_cast<T>(i))) : "part " + std::to_string(i) + " of 8 of the range"));
        }
    }
    // 480 draws from at least 2^20 values
    c.check(width < (1u << 20) || distinct.size() > 100, "only " + std::to_string(distinct.size()) + " different values in 480 draws from a large range");
    c.label_if(lo < 0 && hi >= 0, "range across zero");
    c.label_if(hi < 0, "negative range");
    c.label_if(lo == L::min() || hi == L::max(), "an extreme of the type");
    c.label_if(width == 0, "equal bounds");
    c.nontrivial = width > 0;
}

template <typename T>
static T float_bound(Src& s)
{
    using L = std::numeric_limits<T>;
    switch (s.below(6))
    {
        case 0:
            return static_cast<T>(s.range(0, 10));
        case 1:
            return -static_cast<T>(s.range(0, 1000)) / 16;
        case 2:
            return s.pick<T>({L::max(), L::max() / 2, L::min(), L::denorm_min(), L::epsilon(), 0});
        case 3:
            return -s.pick<T>({L::max(), L::max() / 2, L::min(), L::denorm_min(), L::epsilon(), 1});
        default:
            return static_cast<T>(std::ldexp(static_cast<T>(s.range(-1000000, 1000000)), static_cast<int>(s.range(-60, 60))));
    }
}
template <typename T>
static void floats(Src& s, Ctx& c, const char* type)
{
    T lo = float_bound<T>(s), hi = s.chance(1, 8) ? lo : float_bound<T>(s);
    if (hi < lo)
    {
        std::swap(lo, hi);
    }
    const T width = hi - lo;
    if (!std::isfinite(width))
    {
        throw Discard{};
    }
    c.log << "Random<" << type << ">(" << num(lo) << ", " << num(hi) << ")";
    const T big = std::max(std::fabs(lo), std::fabs(hi));
    const bool wide = width > big * std::numeric_limits<T>::epsilon() * 1024 && width > std::numeric_limits<T>::min();
    bool seen[8] = {};
    std::set<T> distinct;
    for (size_t i = 0; i < 480; ++i)
    {
        const T v = C::Random<T>(lo, hi);
        if (!(v >= lo && v <= hi))
        {
            c.fail("drew " + num(v));
        }
        if (wide)
        {
            seen[std::min(7, static_cast<int>((v - lo) / width * 8))] = true;
            distinct.insert(v);
        }
    }
    if (wide)
    {
        for (int i = 0; i < 8; ++i)
        {
            c.check(seen[i], "480 draws never reach part " + std::to_string(i) + " of 8 of the range");
        }
        c.check(distinct.size() > 20, "only " + std::to_string(distinct.size()) + " different values in 480 draws");
    }
    c.label_if(lo < 0 && hi > 0, "range across zero");
    c.label_if(hi < 0, "negative range");
    c.label_if(width == 0, "equal bounds");
    c.label("floating");
    c.nontrivial = wide;
}

static void booleans(Src& s, Ctx& c)
{
    double p = 0;
    size_t draws = 1000;
    switch (s.below(7))
    {
        case 6: // rare or almost sure; enough draws that the rare answer cannot be missing by chance
        {
            const double rare = static_cast<double>(s.range(5, 100)) / 10000;
            draws = static_cast<size_t>(50 / rare);
            p = s.flip() ? rare : 1 - rare;
            c.label("rare");
            break;
        }
        case 0:
            p = 0;
            break;
        case 1:
            p = 1;
            break;
        case 2:
        case 3:
            p = static_cast<double>(s.range(5, 95)) / 100;
            break;
        case 4:
            p = static_cast<double>(s.range(1, 999)) / 1000;
            break;
        default:
        {
            p = s.pick<double>({-1e-300, -0.5, 1.0000000000000002, 2, -1, 100, 50, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(),
                std::numeric_limits<double>::quiet_NaN(), -4.9e-324});
            c.log << "RandomBoolean(" << num(p) << ") is refused";
            c.must_throw([&] { (void)C::RandomBoolean(p); }, "a probability outside 0 to 1");
            c.label("refused");
            c.nontrivial = true;
            return;
        }
    }
    c.log << "RandomBoolean(" << num(p) << ")";
    size_t yes = 0;
    for (size_t i = 0; i < draws; ++i)
    {
        yes += p == 0.5 && i % 2 ? C::RandomBoolean() : C::RandomBoolean(p);
    }
    if (p == 0 || p == 1)
    {
        c.eq(yes, p == 0 ? size_t{0} : draws, "times true");
    }
    else
    {
        // ten standard deviations and a little: never exceeded by independent draws
        const double mean = p * draws, dev = std::sqrt(p * (1 - p) * draws);
        c.check(std::fabs(static_cast<double>(yes) - mean) <= 10 * dev + 10, "true " + std::to_string(yes) + " times in " + std::to_string(draws) + " draws");
        c.check((draws == 1000 && (p < 0.05 || p > 0.95)) || (yes > 0 && yes < draws), "never takes both values");
        c.nontrivial = true;
    }
    c.label("boolean");
}

static void run(Src& s, Ctx& c)
{
    switch (s.below(12))
    {
        case 0:
            return integers<C::Int16>(s, c, "Int16");
        case 1:
            return integers<C::UInt16>(s, c, "UInt16");
        case 2:
            return integers<C::Int32>(s, c, "Int32");
        case 3:
            return integers<C::UInt32>(s, c, "UInt32");
        case 4:
            return integers<C::Int64>(s, c, "Int64");
        case 5:
            return integers<C::UInt64>(s, c, "UInt64");
        case 6:
            return floats<C::Float>(s, c, "Float");
        case 7:
            return floats<C::Double>(s, c, "Double");
        case 8:
            return floats<C::Decimal>(s, c, "Decimal");
        default:
            return booleans(s, c);
    }
}

static const Config cfg{"U02", run, 0, nullptr, false, 60};
PBT_MAIN(cfg)
