// Generators of decimal numbers and their exact values.
#ifndef PBT_BIGNUM_H_
#define PBT_BIGNUM_H_

#include <string>
#include <boost/multiprecision/cpp_int.hpp>
#include "gen.h"

namespace pbt {

using Big = boost::multiprecision::cpp_int;

// A digit string without leading zeros ("0" for zero); the simplest is "0"
inline std::string digits(Src& s, size_t max_len)
{
    std::string d;
    const size_t n = s.weighted({6, 4, 2}) == 0 ? 1 + s.below(4) : 1 + s.length(max_len - 1);
    switch (s.weighted({5, 1, 1, 1, 1, 1}))
    {
        case 0:
            for (size_t i = 0; i < n; ++i)
            {
                d += static_cast<char>('0' + s.below(10));
            }
            break;
        case 1:
            d.assign(n, '9');
            break;
        case 2:
            d.assign(n, '0');
            d[0] = '1';
            break;
        case 3: // power of ten plus one
            d.assign(n, '0');
            d[0] = '1';
            d.back() = '1';
            break;
        case 4: // long runs
            while (d.size() < n)
            {
                d += std::string(1 + s.below(12), static_cast<char>('0' + s.pick<int>({0, 9, 1, 5, 4})));
            }
            d.resize(n);
            break;
        default: // mostly zeros
            d.assign(n, '0');
            for (size_t i = 0; i < 1 + n / 8; ++i)
            {
                d[s.below(n)] = static_cast<char>('0' + s.below(10));
            }
    }
    const size_t first = d.find_first_not_of('0');
    return first == std::string::npos ? "0" : d.substr(first);
}

inline std::string number(Src& s, size_t max_len)
{
    const std::string d = digits(s, max_len);
    return d != "0" && s.flip() ? "-" + d : d;
}

inline Big value_of(const std::string& text)
{
    std::string t = text;
    bool neg = false;
    if (!t.empty() && (t[0] == '-' || t[0] == '+'))
    {
        neg = t[0] == '-';
        t.erase(0, 1);
    }
    const size_t first = t.find_first_not_of('0');
    Big v = first == std::string::npos ? Big(0) : Big(t.substr(first));
    return neg ? Big(-v) : v;
}
inline std::string text_of(const Big& v)
{
    return v.str();
}
inline Big pow10(size_t n)
{
    Big v = 1;
    for (size_t i = 0; i < n; ++i)
    {
        v *= 10;
    }
    return v;
}

// A number close to or otherwise related to another one
inline Big related(Src& s, const Big& a, size_t max_len)
{
    switch (s.weighted({6, 1, 1, 1, 1, 1, 1, 1}))
    {
        case 0:
            return value_of(number(s, max_len));
        case 1:
            return a;
        case 2:
            return -a;
        case 3:
            return a + s.range(-2, 2);
        case 4:
            return -a + s.range(-2, 2);
        case 5:
            return a / 10;
        case 6:
            return a * 10 + s.below(10);
        default: // one digit changed
            return a + pow10(s.below(a.str().size() + 1)) * s.range(-9, 9);
    }
}

} // namespace pbt

#endif // PBT_BIGNUM_H_
