// Generators and reference encodings shared by the harnesses (independent of the code under test).
#ifndef PBT_GEN_H_
#define PBT_GEN_H_

#include <string>
#include <vector>

#include "pbt.h"

namespace pbt {

using Cps = std::vector<uint32_t>;

inline void put_utf8(std::string& out, uint32_t c)
{
    if (c < 0x80)
    {
        out += static_cast<char>(c);
    }
    else if (c < 0x800)
    {
        out += static_cast<char>(0xC0 | (c >> 6));
        out += static_cast<char>(0x80 | (c & 0x3F));
    }
    else if (c < 0x10000)
    {
        out += static_cast<char>(0xE0 | (c >> 12));
        out += static_cast<char>(0x80 | ((c >> 6) & 0x3F));
        out += static_cast<char>(0x80 | (c & 0x3F));
    }
    else
    {
        out += static_cast<char>(0xF0 | (c >> 18));
        out += static_cast<char>(0x80 | ((c >> 12) & 0x3F));
        out += static_cast<char>(0x80 | ((c >> 6) & 0x3F));
        out += static_cast<char>(0x80 | (c & 0x3F));
    }
}
inline std::string utf8(uint32_t c)
{
    std::string s;
    put_utf8(s, c);
    return s;
}
inline std::string utf8(const Cps& v)
{
    std::string s;
    for (auto c : v)
    {
        put_utf8(s, c);
    }
    return s;
}

// Any scalar value except NUL; 'a' is the simplest
inline uint32_t code_point(Src& s)
{
    static const uint32_t edges[] = {0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x1, 0xA0, 0xFEFF, 0x3000, 0x2028, 0x1F600, 0xFFFE, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0xFFF, 0x1000, 0xBF, 0xC0, 0x3F, 0x40, 0x7E};
    switch (s.weighted({40, 16, 8, 10, 10, 10, 6}))
    {
        case 0:
            return static_cast<uint32_t>('a' + s.below(26));
        case 1:
            return static_cast<uint32_t>(0x20 + s.below(0x5F));
        case 2:
            return static_cast<uint32_t>(1 + s.below(0x7F));
        case 3:
            return static_cast<uint32_t>(s.range(0x80, 0x7FF));
        case 4:
        {
            const auto c = static_cast<uint32_t>(s.range(0x800, 0xFFFF - 0x800));
            return c < 0xD800 ? c : c + 0x800;
        }
        case 5:
            return static_cast<uint32_t>(s.range(0x10000, 0x10FFFF));
        default:
            return edges[s.below(sizeof edges / sizeof *edges)];
    }
}

// A small alphabet makes repetitions, common prefixes and overlapping matches likely
inline uint32_t narrow_code_point(Src& s)
{
    static const uint32_t alphabet[] = {'a', 'b', 0xE9, 0x4E16, 0x1F600, ' ', 'A', 0x1F601, 0x4E17, 0xE8};
    return alphabet[s.weighted({6, 5, 2, 2, 2, 1, 1, 1, 1, 1})];
}

inline Cps text_of(Src& s, size_t max_len, uint32_t (*cp)(Src&) = code_point)
{
    Cps v(s.length(max_len));
    for (auto& c : v)
    {
        c = cp(s);
    }
    return v;
}

inline Cps text(Src& s, size_t max_len = 40)
{
    return s.flip() ? text_of(s, max_len, code_point) : text_of(s, max_len, narrow_code_point);
}

inline std::string utf8_text(Src& s, size_t max_len = 40)
{
    return utf8(text(s, max_len));
}

// Mostly 0; now and then a length beyond the sizes buffers and counters usually have
inline size_t surplus(Src& s, size_t most = 70000)
{
    static const size_t some[] = {60, 100, 127, 128, 129, 250, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193};
    static const size_t many[] = {16384, 32767, 32768, 65535, 65536, 65537, 70000};
    const auto r = s.below(1000);
    const size_t n = r < 988 ? 0 : r < 999 ? some[s.below(sizeof some / sizeof *some)] : many[s.below(sizeof many / sizeof *many)];
    return std::min(n, most);
}
inline Cps stretched(Src& s, Cps v, size_t most = 70000)
{
    if (const size_t n = surplus(s, most))
    {
        const uint32_t c = narrow_code_point(s);
        v.insert(s.flip() ? v.begin() : v.end(), n, c);
    }
    return v;
}
inline std::string stretched(Src& s, std::string t, size_t most = 70000)
{
    if (const size_t n = surplus(s, most))
    {
        const std::string c = utf8(narrow_code_point(s));
        std::string run;
        for (size_t i = 0; i < n; ++i)
        {
            run += c;
        }
        t.insert(s.flip() ? 0 : t.size(), run);
    }
    return t;
}

// strict structural decoding: 1-4 byte sequences with continuation bytes; false if malformed
inline bool split_utf8(const std::string& b, Cps& out)
{
    out.clear();
    for (size_t i = 0; i < b.size();)
    {
        const unsigned char c = static_cast<unsigned char>(b[i]);
        size_t n = c < 0x80 ? 1 : c < 0xC0 ? 0 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : c < 0xF8 ? 4 : 0;
        if (n == 0 || i + n > b.size())
        {
            return false;
        }
        uint32_t v = n == 1 ? c : n == 2 ? c & 0x1F : n == 3 ? c & 0x0F : c & 0x07;
        for (size_t k = 1; k < n; ++k)
        {
            const unsigned char d = static_cast<unsigned char>(b[i + k]);
            if ((d & 0xC0) != 0x80)
            {
                return false;
            }
            v = (v << 6) | (d & 0x3F);
        }
        out.push_back(v);
        i += n;
    }
    return true;
}

// NUL-terminated copy of the bytes in an exactly sized heap block, so that reading past it is seen by the sanitizer
class CText
{
public:
    explicit CText(const std::string& s) : size_(s.size() + 1), p_(new char[size_])
    {
        memcpy(p_, s.c_str(), size_);
    }
    ~CText()
    {
        delete[] p_;
    }
    CText(const CText&) = delete;
    CText& operator=(const CText&) = delete;
    const char* get() const
    {
        return p_;
    }

private:
    size_t size_;
    char* p_;
};

} // namespace pbt

#endif // PBT_GEN_H_
