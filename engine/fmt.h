// Arguments, templates and the reference renderer for String::Format and its users.
#ifndef PBT_FMT_H_
#define PBT_FMT_H_

#include <cmath>
#include <limits>
#include <utility>

#include <Caitlyn/String>
#include "gen.h"

namespace pbt {

enum Kind
{
    I32,
    Str,
    CStr,
    StdStr,
    Bool,
    I16,
    U16,
    U32,
    I64,
    U64,
    LL,
    ULL,
    F32,
    F64,
    LD,
    Ch,
    ObjToString,
    ObjStr,
    ObjText
};

// Three ways an object can describe itself; describing it may format other things, with the same types or others
struct WithStr
{
    std::string text;
    int formats = 0;
    std::string str() const
    {
        return formats == 0 ? text : formats == 1 ? Caitlyn::String::Format("{}", text).str() : Caitlyn::String::Format("{}", WithStr{text, formats - 1}).str();
    }
};
struct WithToString
{
    std::string text;
    int formats = 0;
    std::string to_string() const
    {
        switch (formats)
        {
            case 0:
                return text;
            case 1:
                return Caitlyn::String::Format("{1}{0}", 17, WithStr{text, 1}).str().substr(0, text.size());
            case 2:
                return Caitlyn::String::Format("{}", WithToString{text, 1}).str();
            default:
                // as in the list (object, unsigned short)
                return Caitlyn::String::Format("{1}{0}", WithToString{text, 0}, static_cast<unsigned short>(5)).str().substr(1);
        }
    }
};
struct WithText
{
    std::string text;
    int formats = 0;
    Caitlyn::String ToString() const
    {
        switch (formats)
        {
            case 0:
                return text;
            case 1:
            {
                const Caitlyn::String all = Caitlyn::String::Format("<{{{:*>3}}}{}>", 7, WithToString{text, 1});
                return all.Substring(6, all.size() - 7);
            }
            case 2:
                return Caitlyn::String::Format("{}", WithText{text, 3});
            default:
                // as in the list (object, unsigned, object)
                return Caitlyn::String::Format("{1:3}{2}{0}", WithText{text, 0}, 65u, WithStr{"s", 2}).Substring(4);
        }
    }
};

struct Value
{
    int64_t i = 0;
    double d = 0;
    std::string text;
    uint32_t cp = 'a';
};

template <Kind K>
struct Get;
#define PBT_GET(K, T, E)                                                                                               \
    template <>                                                                                                        \
    struct Get<K>                                                                                                      \
    {                                                                                                                  \
        static T get(const Value& v)                                                                                   \
        {                                                                                                              \
            return E;                                                                                                  \
        }                                                                                                              \
    };
PBT_GET(I32, int, static_cast<int>(v.i))
PBT_GET(I16, short, static_cast<short>(v.i))
PBT_GET(U16, unsigned short, static_cast<unsigned short>(v.i))
PBT_GET(U32, unsigned, static_cast<unsigned>(v.i))
PBT_GET(I64, long, static_cast<long>(v.i))
PBT_GET(U64, unsigned long, static_cast<unsigned long>(v.i))
PBT_GET(LL, long long, static_cast<long long>(v.i))
PBT_GET(ULL, unsigned long long, static_cast<unsigned long long>(v.i))
PBT_GET(Bool, bool, (v.i & 1) != 0)
PBT_GET(F32, float, static_cast<float>(v.d))
PBT_GET(F64, double, v.d)
PBT_GET(LD, long double, v.d)
PBT_GET(Str, Caitlyn::String, Caitlyn::String(v.text))
PBT_GET(CStr, const char*, v.text.c_str())
PBT_GET(StdStr, std::string, v.text)
PBT_GET(Ch, Caitlyn::Char, Caitlyn::Char(static_cast<Caitlyn::CodePoint>(v.cp)))
PBT_GET(ObjToString, WithToString, (WithToString{v.text, static_cast<int>(v.i)}))
PBT_GET(ObjStr, WithStr, (WithStr{v.text, static_cast<int>(v.i)}))
PBT_GET(ObjText, WithText, (WithText{v.text, static_cast<int>(v.i)}))
#undef PBT_GET

inline bool floating(Kind k)
{
    return k == F32 || k == F64 || k == LD;
}
inline bool integral(Kind k)
{
    return k == I32 || k == I16 || k == U16 || k == U32 || k == I64 || k == U64 || k == LL || k == ULL;
}

inline std::string plain(Kind k, const Value& v)
{
    char b[700];
    switch (k)
    {
        case I32:
            snprintf(b, sizeof b, "%d", static_cast<int>(v.i));
            return b;
        case I16:
            snprintf(b, sizeof b, "%d", static_cast<int>(static_cast<short>(v.i)));
            return b;
        case U16:
            snprintf(b, sizeof b, "%u", static_cast<unsigned>(static_cast<unsigned short>(v.i)));
            return b;
        case U32:
            snprintf(b, sizeof b, "%u", static_cast<unsigned>(v.i));
            return b;
        case I64:
        case LL:
            snprintf(b, sizeof b, "%lld", static_cast<long long>(v.i));
            return b;
        case U64:
        case ULL:
            snprintf(b, sizeof b, "%llu", static_cast<unsigned long long>(v.i));
            return b;
        case Bool:
            return v.i & 1 ? "true" : "false";
        case F32:
            snprintf(b, sizeof b, "%f", static_cast<double>(static_cast<float>(v.d)));
            return b;
        case F64:
        case LD:
            snprintf(b, sizeof b, "%f", v.d);
            return b;
        case Ch:
            return utf8(v.cp);
        default:
            return v.text;
    }
}

inline int64_t any_int(Src& s)
{
    static const int64_t edges[] = {0, 1, -1, 9, 10, 99, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, -2147483648LL, 2147483648LL, 4294967295LL, 4294967296LL, INT64_MAX, INT64_MIN, INT64_MIN + 1, -10, -100};
    switch (s.below(4))
    {
        case 0:
            return s.range(0, 20);
        case 1:
            return s.range(-1000, 100000);
        case 2:
            return edges[s.below(sizeof edges / sizeof *edges)];
        default:
            return static_cast<int64_t>(s.draw(UINT64_MAX));
    }
}

inline double any_finite(Src& s)
{
    switch (s.below(6))
    {
        case 0:
            return static_cast<double>(s.range(0, 100));
        case 1:
            return static_cast<double>(s.range(-100000, 100000)) / 1000.0;
        case 2:
        {
            static const double edges[] = {0.0, -0.0, 0.5, 0.9999999, 0.0000004, 1e15, 123456789.987654321, -0.000001, 1e-7, 99999.9999995, 1e22, -1e18, 3.14159, 0.1, 2.675};
            return edges[s.below(sizeof edges / sizeof *edges)];
        }
        case 3:
            return static_cast<double>(s.range(-1000000000000LL, 1000000000000LL)) / 1048576.0;
        case 4:
            return static_cast<double>(static_cast<int64_t>(s.draw(UINT64_MAX)));
        default:
        {
            // any bit pattern of moderate size
            const uint64_t m = s.draw((uint64_t{1} << 52) - 1);
            const uint64_t e = 1023 - 40 + s.draw(90);
            const uint64_t bits = (s.draw(1) << 63) | (e << 52) | m;
            double d;
            memcpy(&d, &bits, sizeof d);
            return d;
        }
    }
}

inline Value any_value(Src& s, Kind k)
{
    Value v;
    if (integral(k) || k == Bool)
    {
        v.i = any_int(s);
    }
    else if (floating(k))
    {
        v.d = any_finite(s);
    }
    else if (k == Ch)
    {
        v.cp = code_point(s);
    }
    else
    {
        // braces and colons in an argument are not special
        v.text = stretched(s, utf8_text(s, 12), 5000);
        if (s.chance(1, 6))
        {
            v.text += s.pick<const char*>({"{}", "{0}", "}", "{", ":", "{{", "}}", "{:>5}", "%s", "."});
        }
        if (k == ObjToString || k == ObjStr || k == ObjText)
        {
            v.i = static_cast<int64_t>(s.below(4));
        }
    }
    return v;
}

struct Spec
{
    uint32_t fill = 0; // 0: none given
    char align = 0;
    int width = -1;
    int precision = -1;
    char type = 0;
};

inline Spec any_spec(Src& s, Kind k)
{
    Spec p;
    switch (s.below(4))
    {
        case 0:
            break;
        case 1:
            p.align = s.pick<char>({'<', '>', '^'});
            break;
        default:
            p.align = s.pick<char>({'>', '^', '<'});
            do
            {
                p.fill = s.flip() ? s.pick<uint32_t>({'*', '0', ':', '<', '>', '^', '.', ' ', '-', '5', 'f', '"', '\\', 0xE9, 0x4E16, 0x1F600})
                                  : code_point(s);
                // a brace as fill character is not promised
            } while (p.fill == '{' || p.fill == '}');
    }
    if (s.chance(4, 5))
    {
        p.width = static_cast<int>((s.chance(1, 8) ? s.below(300) : s.below(30)) + surplus(s));
    }
    if (integral(k) || floating(k))
    {
        switch (s.below(4))
        {
            case 0:
                break;
            case 1:
                p.type = 'd';
                break;
            default:
                p.type = 'f';
                if (s.chance(3, 4))
                {
                    p.precision = static_cast<int>((s.chance(1, 8) ? s.below(60) : s.below(10)) + surplus(s, 9000));
                }
        }
        if (p.type == 'd' && floating(k))
        {
            p.type = 0;
        }
    }
    else if (s.chance(1, 4))
    {
        p.type = 's';
    }
    return p;
}

inline std::string text_of(const Spec& p)
{
    std::string r = ":";
    if (p.fill)
    {
        put_utf8(r, p.fill);
    }
    if (p.align)
    {
        r += p.align;
    }
    if (p.width >= 0)
    {
        r += std::to_string(p.width);
    }
    if (p.precision >= 0)
    {
        r += "." + std::to_string(p.precision);
    }
    if (p.type)
    {
        r += p.type;
    }
    return r;
}

inline std::string render(const std::string& text, const Spec& p)
{
    std::string t = text;
    if (p.type == 'f' && p.precision >= 0)
    {
        const size_t dot = t.find('.');
        std::string frac = dot == std::string::npos ? "" : t.substr(dot + 1);
        frac.resize(static_cast<size_t>(p.precision), '0');
        t = t.substr(0, dot) + (p.precision > 0 ? "." + frac : "");
    }
    Cps v;
    split_utf8(t, v);
    const size_t width = p.width < 0 ? 0 : static_cast<size_t>(p.width);
    if (v.size() >= width)
    {
        return t;
    }
    const size_t pad = width - v.size();
    const size_t left = p.align == '>' ? pad : p.align == '^' ? pad / 2 : 0;
    std::string r;
    for (size_t i = 0; i < left; ++i)
    {
        put_utf8(r, p.fill ? p.fill : ' ');
    }
    r += t;
    for (size_t i = left; i < pad; ++i)
    {
        put_utf8(r, p.fill ? p.fill : ' ');
    }
    return r;
}

// Lists of argument kinds; f is called with the arguments in their own types
template <typename F, Kind... K>
struct Pattern
{
    static std::vector<Kind> kinds()
    {
        return {K...};
    }
    static void call(F& f, const std::vector<Value>& v)
    {
        apply(f, v, std::make_index_sequence<sizeof...(K)>());
    }

private:
    template <size_t... I>
    static void apply(F& f, const std::vector<Value>& v, std::index_sequence<I...>)
    {
        (void)v;
        f(Get<K>::get(v[I])...);
    }
};

template <typename F>
struct Shape
{
    std::vector<Kind> kinds;
    void (*call)(F&, const std::vector<Value>&);
};

template <typename F, Kind... K>
Shape<F> shape()
{
    return {Pattern<F, K...>::kinds(), &Pattern<F, K...>::call};
}

// A well-formed template over the given arguments, with its expected result
struct Template
{
    std::string text;
    std::string expected;
    size_t placeholders = 0;
    size_t braces = 0;
    size_t specs = 0;
    bool reordered = false;
};

inline Template any_template(Src& s, const std::vector<Kind>& kinds, const std::vector<Value>& values, bool with_specs)
{
    Template t;
    size_t automatic = 0, last = 0;
    const size_t n = s.length(12);
    for (size_t i = 0; i < n; ++i)
    {
        const size_t what = s.weighted({4, 5, 4, 1, 1});
        if (what == 0)
        {
            const size_t len = 1 + s.below(6);
            if (const size_t more = surplus(s, 9000))
            {
                const std::string run(more, static_cast<char>('a' + s.below(3)));
                t.text += run;
                t.expected += run;
            }
            for (size_t k = 0; k < len; ++k)
            {
                uint32_t c = s.chance(1, 4) ? s.pick<uint32_t>({'\n', '\t', '%', ':', '"', '\\', '0', '<', '.', 'f', ' '}) : code_point(s);
                if (c == '{' || c == '}')
                {
                    c = '|';
                }
                put_utf8(t.text, c);
                put_utf8(t.expected, c);
            }
            continue;
        }
        if (what >= 3)
        {
            t.text += what == 3 ? "{{" : "}}";
            t.expected += what == 3 ? "{" : "}";
            ++t.braces;
            continue;
        }
        if (kinds.empty())
        {
            continue;
        }
        size_t index;
        std::string number;
        if (what == 1)
        {
            if (kinds.size() > 1 && automatic >= kinds.size())
            {
                continue;
            }
            index = kinds.size() == 1 ? 0 : automatic;
            ++automatic;
        }
        else
        {
            index = s.below(kinds.size());
            number = std::string(s.chance(1, 10) ? 1 + s.below(3) : 0, '0') + std::to_string(index);
        }
        t.reordered |= index < last;
        last = index;
        ++t.placeholders;
        const std::string value = plain(kinds[index], values[index]);
        if (with_specs && s.flip())
        {
            const Spec p = any_spec(s, kinds[index]);
            t.text += "{" + number + text_of(p) + "}";
            t.expected += render(value, p);
            ++t.specs;
        }
        else
        {
            t.text += "{" + number + "}";
            t.expected += value;
        }
    }
    return t;
}

template <typename F>
const std::vector<Shape<F>>& shapes()
{
    static const std::vector<Shape<F>> all{
        shape<F, I32>(), shape<F, Str>(), shape<F>(), shape<F, I32, Str>(), shape<F, CStr, F64, I64>(), shape<F, StdStr, Bool>(),
        shape<F, ObjText, U32, ObjStr>(), shape<F, U64, LL, ULL, I16>(), shape<F, F32>(), shape<F, F64>(), shape<F, LD, Ch>(),
        shape<F, ObjToString, U16>(), shape<F, Str, Str, Str, Str, Str>(), shape<F, I32, I32, I32, I32, I32, I32, I32, I32, I32, I32, I32, I32>(),
        shape<F, Ch>(), shape<F, Bool>(), shape<F, CStr>(), shape<F, U64>(), shape<F, I64>(), shape<F, ObjToString>(), shape<F, ObjStr>(), shape<F, ObjText>()};
    return all;
}

// shapes with fewer instantiations
template <typename F>
const std::vector<Shape<F>>& few_shapes()
{
    static const std::vector<Shape<F>> all{
        shape<F, I32>(), shape<F, Str, F64>(), shape<F>(), shape<F, I32, Str, Bool>(), shape<F, ObjText, U64, ObjStr>(), shape<F, CStr>()};
    return all;
}

inline std::string describe(const std::vector<Kind>& kinds, const std::vector<Value>& values)
{
    std::string r = "(";
    for (size_t i = 0; i < kinds.size(); ++i)
    {
        r += (i ? ", " : "") + show(plain(kinds[i], values[i]));
    }
    return r + ")";
}

} // namespace pbt

#endif // PBT_FMT_H_
