// Sizes, limits and fixed-width types of the library, next to what the language says.
#ifndef GEN_SIZES_H_
#define GEN_SIZES_H_

#include <climits>
#include <cstdint>
#include <limits>

#include "traits.h"

#ifndef STD_ONLY
#include <Caitlyn/Memory>
#include <Caitlyn/Numeric>
#endif

static int wrong(const char* id, const char* what)
{
    std::printf("WRONG %s %s\n", id, what);
    return 1;
}

// A format the compiler does not know in advance
#ifndef STD_ONLY
static volatile bool in_bits;
static Caitlyn::MemoryFormat format(bool bits)
{
    in_bits = bits;
    return in_bits ? Caitlyn::MemoryFormat::Bit : Caitlyn::MemoryFormat::Byte;
}
#endif

template <class T>
static int type_size(const char* id)
{
#ifndef STD_ONLY
    using Caitlyn::MemoryFormat;
    using Caitlyn::SizeOf;
    constexpr std::size_t plain = SizeOf<T>(), bytes = SizeOf<T>(MemoryFormat::Byte), bits = SizeOf<T>(MemoryFormat::Bit);
    static_assert(std::is_same<decltype(SizeOf<T>()), Caitlyn::SizeType>::value, "type of a size");
    const std::size_t later_bytes = SizeOf<T>(format(false)), later_bits = SizeOf<T>(format(true));
    const Row r[] = {{"SizeOf<T>()", plain, sizeof(T)},
                     {"SizeOf<T>(Byte)", bytes, sizeof(T)},
                     {"SizeOf<T>(Bit)", bits, sizeof(T) * CHAR_BIT},
                     {"SizeOf<T>(Byte) at run time", later_bytes, sizeof(T)},
                     {"SizeOf<T>(Bit) at run time", later_bits, sizeof(T) * CHAR_BIT}};
    return rows(id, r);
#else
    (void)id;
    return sizeof(T) == 0;
#endif
}

// The object is never touched: only its place is named
template <class T>
static int value_size(const char* id)
{
    alignas(typename std::remove_all_extents<T>::type) static char place[sizeof(T)];
    T& object = reinterpret_cast<T&>(place);
    const T& constant = object;
#ifndef STD_ONLY
    using Caitlyn::MemoryFormat;
    using Caitlyn::SizeOf;
    const Row r[] = {{"SizeOf(object)", SizeOf(object), sizeof(T)},
                     {"SizeOf(constant)", SizeOf(constant), sizeof(T)},
                     {"SizeOf(object, Byte)", SizeOf(object, MemoryFormat::Byte), sizeof(T)},
                     {"SizeOf(object, Bit)", SizeOf(object, MemoryFormat::Bit), sizeof(T) * CHAR_BIT},
                     {"SizeOf(constant, Bit) at run time", SizeOf(constant, format(true)), sizeof(T) * CHAR_BIT},
                     {"SizeOf(constant, Byte) at run time", SizeOf(constant, format(false)), sizeof(T)}};
    return rows(id, r);
#else
    (void)id;
    return &constant != &object;
#endif
}

template <class T>
static int limits(const char* id)
{
    using B = typename std::remove_cv<T>::type;
    int bad = 0;
    const B low = std::numeric_limits<T>::min(), high = std::numeric_limits<T>::max();
#ifndef STD_ONLY
    static_assert(std::is_same<decltype(Caitlyn::ValueRange<T>()), std::pair<T, T>>::value, "type of a range");
    if (!(Caitlyn::MinValue<T>() == low))
    {
        bad += wrong(id, "MinValue");
    }
    if (!(Caitlyn::MaxValue<T>() == high))
    {
        bad += wrong(id, "MaxValue");
    }
    const auto range = Caitlyn::ValueRange<T>();
    if (!(range.first == low))
    {
        bad += wrong(id, "ValueRange, lower bound");
    }
    if (!(range.second == high))
    {
        bad += wrong(id, "ValueRange, upper bound");
    }
#endif
    (void)id;
    (void)low;
    (void)high;
    return bad;
}

template <class T>
static int number(const char* id)
{
#ifndef STD_ONLY
    constexpr T low = Caitlyn::MinValue<T>(), high = Caitlyn::MaxValue<T>();
#if __cplusplus >= 201402L
    constexpr std::pair<T, T> range = Caitlyn::ValueRange<T>();
    const bool range_ok = range.first == std::numeric_limits<T>::min() && range.second == std::numeric_limits<T>::max();
#else
    const bool range_ok = true;
#endif
    return low == std::numeric_limits<T>::min() && high == std::numeric_limits<T>::max() && range_ok ? 0 : wrong(id, "constant limits");
#else
    (void)id;
    return 0;
#endif
}

// A number type of the library: width, kind and sign
template <class T>
static int width(const char* id, const char* name, std::size_t bits, bool integer, bool is_signed)
{
    if (sizeof(T) * CHAR_BIT != bits || std::numeric_limits<T>::is_integer != integer || std::is_signed<T>::value != is_signed)
    {
        return wrong(id, name);
    }
    return 0;
}

// Every value v of an integer type lies in its range and is not moved by a trip through the type of the same width
template <class T, class Std>
static int holds(const char* id, const char* name, Std v)
{
    const T t = static_cast<T>(v);
    if (sizeof(T) != sizeof(Std) || static_cast<Std>(t) != v || (t < 0) != (v < 0))
    {
        return wrong(id, name);
    }
#ifndef STD_ONLY
    if (!(Caitlyn::MinValue<T>() <= t && t <= Caitlyn::MaxValue<T>()))
    {
        return wrong(id, "a value outside of the range");
    }
#endif
    return 0;
}

#endif // GEN_SIZES_H_
