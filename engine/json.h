// An independent JSON model: ordered trees, a generator, a writer with free layout and an acceptance grammar.
#ifndef PBT_JSON_H_
#define PBT_JSON_H_

#include <cerrno>
#include <cfloat>
#include <cmath>
#include <cstdlib>
#include <limits>
#include <string>
#include <utility>
#include <vector>

#include <Caitlyn/Serializing>
#include "gen.h"

namespace pbt {

using JData = Caitlyn::JsonDocument::DataType;
using Caitlyn::Json::JsonClass;

struct JV
{
    enum Kind
    {
        Null,
        Bool,
        Int,
        Float,
        Str,
        Arr,
        Obj
    };
    Kind kind = Null;
    bool b = false;
    int64_t i = 0;
    float f = 0;
    std::string s;
    std::vector<JV> items;
    std::vector<std::pair<std::string, JV>> members;

    JV() = default;
    explicit JV(Kind k) : kind(k)
    {
    }
    static JV of_bool(bool v)
    {
        JV r(Bool);
        r.b = v;
        return r;
    }
    static JV of_int(int64_t v)
    {
        JV r(Int);
        r.i = v;
        return r;
    }
    static JV of_float(float v)
    {
        JV r(Float);
        r.f = v;
        return r;
    }
    static JV of_str(const std::string& v)
    {
        JV r(Str);
        r.s = v;
        return r;
    }

    JV* find(const std::string& key)
    {
        for (auto& m : members)
        {
            if (m.first == key)
            {
                return &m.second;
            }
        }
        return nullptr;
    }
    // indexing, as documented: another kind becomes an empty container first
    JV& at(const std::string& key)
    {
        if (kind != Obj)
        {
            *this = JV(Obj);
        }
        if (JV* p = find(key))
        {
            return *p;
        }
        members.emplace_back(key, JV());
        return members.back().second;
    }
    JV& at(size_t index)
    {
        if (kind != Arr)
        {
            *this = JV(Arr);
        }
        while (items.size() <= index)
        {
            items.emplace_back();
        }
        return items[index];
    }
    size_t nodes() const
    {
        size_t n = 1;
        for (auto& m : members)
        {
            n += m.second.nodes();
        }
        for (auto& m : items)
        {
            n += m.nodes();
        }
        return n;
    }
    size_t depth() const
    {
        size_t n = 0;
        for (auto& m : members)
        {
            n = std::max(n, m.second.depth());
        }
        for (auto& m : items)
        {
            n = std::max(n, m.depth());
        }
        return kind == Arr || kind == Obj ? n + 1 : 0;
    }
};

inline const char* kind_name(JV::Kind k)
{
    static const char* const n[] = {"null", "bool", "int", "float", "string", "array", "object"};
    return n[k];
}
inline JsonClass class_of(JV::Kind k)
{
    switch (k)
    {
        case JV::Null:
            return JsonClass::Null;
        case JV::Bool:
            return JsonClass::Boolean;
        case JV::Int:
            return JsonClass::Integral;
        case JV::Float:
            return JsonClass::Floating;
        case JV::Str:
            return JsonClass::String;
        case JV::Arr:
            return JsonClass::Array;
        default:
            return JsonClass::Object;
    }
}

inline void dump(std::ostream& o, const JV& v)
{
    switch (v.kind)
    {
        case JV::Null:
            o << "null";
            break;
        case JV::Bool:
            o << (v.b ? "true" : "false");
            break;
        case JV::Int:
            o << v.i;
            break;
        case JV::Float:
        {
            char b[40];
            snprintf(b, sizeof b, "%.9gf", static_cast<double>(v.f));
            o << b;
            break;
        }
        case JV::Str:
            o << show(v.s);
            break;
        case JV::Arr:
            o << "[";
            for (size_t i = 0; i < v.items.size(); ++i)
            {
                o << (i ? "," : "");
                dump(o, v.items[i]);
            }
            o << "]";
            break;
        default:
            o << "{";
            for (size_t i = 0; i < v.members.size(); ++i)
            {
                o << (i ? "," : "") << show(v.members[i].first) << ":";
                dump(o, v.members[i].second);
            }
            o << "}";
    }
}
inline std::string dump(const JV& v)
{
    std::ostringstream o;
    dump(o, v);
    return o.str();
}

// ---------------------------------------------------------------------------------------------------------------------
// Generation
// ---------------------------------------------------------------------------------------------------------------------
inline std::string json_text(Src& s, size_t max_len = 20)
{
    static const uint32_t special[] = {'"', '\\', '/', 8, 9, 10, 12, 13, 1, 0x1F, 0x7F, 0x2028, ' ', '{', '}', '[', ']', ':', ',', 'u', 'n'};
    Cps v(s.length(max_len));
    for (auto& c : v)
    {
        c = s.chance(1, 3) ? special[s.below(sizeof special / sizeof *special)] : s.flip() ? code_point(s) : narrow_code_point(s);
    }
    return max_len > 12 && s.chance(1, 4) ? stretched(s, utf8(v), 5000) : utf8(v);
}
inline std::string json_key(Src& s)
{
    static const std::vector<std::string> keys = {"a", "b", "c", "", "key", "\xC3\xA9", "a\"b", "\\"};
    return s.chance(1, 5) ? json_text(s, 12) : keys[s.below(keys.size())];
}
inline int64_t json_int(Src& s)
{
    switch (s.weighted({4, 2, 2, 1}))
    {
        case 0:
            return s.range(0, 20);
        case 1:
            return -s.range(1, 1000);
        case 2:
            return static_cast<int64_t>(s.draw(UINT64_MAX)) >> s.below(64);
        default:
            return s.pick<int64_t>({INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, INT32_MAX, INT32_MIN, UINT32_MAX, 999999, 1000000, 16777217, int64_t{1} << 53});
    }
}
inline float json_float(Src& s)
{
    switch (s.weighted({4, 3, 2, 2}))
    {
        case 0:
            return static_cast<float>(s.range(0, 8000)) / 8.0f;
        case 1:
            return static_cast<float>(-static_cast<double>(s.range(0, 1000000000)) / 1000.0);
        case 2:
        {
            const auto bits = static_cast<uint32_t>(s.draw(UINT32_MAX));
            float f;
            memcpy(&f, &bits, sizeof f);
            return std::isfinite(f) ? f : 1.5f;
        }
        default:
            return s.pick<float>({FLT_MAX, -FLT_MAX, FLT_MIN, 1.0e-45f, 0.1f, 1e6f, 999999.0f, 999999.5f, 1e-5f, 9.99995e-5f, 100000.0f, 123456.7f, 1e20f, 3.0f, 16777216.0f, -0.0f, -1.0f, 1e9f});
    }
}
inline JV json_scalar(Src& s)
{
    switch (s.below(5))
    {
        case 0:
            return JV();
        case 1:
            return JV::of_bool(s.flip());
        case 2:
            return JV::of_int(json_int(s));
        case 3:
            return JV::of_float(json_float(s));
        default:
            return JV::of_str(json_text(s));
    }
}
inline JV json_value(Src& s, size_t depth, size_t& budget);
inline void fill(Src& s, JV& v, size_t depth, size_t& budget)
{
    const size_t n = s.weighted({2, 4, 4, 3, 2, 1, 1});
    for (size_t i = 0; i < n && budget > 0; ++i)
    {
        if (v.kind == JV::Obj)
        {
            const std::string key = json_key(s);
            JV x = json_value(s, depth, budget);
            v.at(key) = x;
        }
        else
        {
            v.items.push_back(json_value(s, depth, budget));
        }
    }
    const size_t more = s.chance(1, 6) ? surplus(s, v.kind == JV::Obj ? 300 : 2100) : 0;
    if (more > 0) // many simple members
    {
        budget = 0;
        const size_t parts = s.below(3);
        for (size_t i = 0; i < more; ++i)
        {
            JV part = i % 2 ? JV() : JV::of_int(static_cast<int64_t>(i));
            if (parts > 0) // containers side by side
            {
                part = JV(i % 2 ? JV::Arr : JV::Obj);
                if (parts > 1)
                {
                    (i % 2 ? (part.items.emplace_back(), part.items.back()) : part.at("x")) = JV::of_int(static_cast<int64_t>(i));
                }
            }
            (v.kind == JV::Obj ? v.at("m" + std::to_string(i)) : (v.items.emplace_back(), v.items.back())) = part;
        }
    }
}
inline JV json_value(Src& s, size_t depth, size_t& budget)
{
    if (budget > 0)
    {
        --budget;
    }
    if (depth == 0 || s.chance(3, 5))
    {
        return json_scalar(s);
    }
    JV v(s.flip() ? JV::Obj : JV::Arr);
    fill(s, v, depth - 1, budget);
    return v;
}
inline JV json_object(Src& s, size_t depth = 5, size_t budget = 40)
{
    JV v(JV::Obj);
    fill(s, v, depth, budget);
    if (s.chance(1, 30)) // a chain of containers
    {
        const size_t n = s.length(120);
        JV x = json_scalar(s);
        for (size_t i = 0; i < n; ++i)
        {
            JV y(s.flip() ? JV::Obj : JV::Arr);
            if (y.kind == JV::Obj)
            {
                y.members.emplace_back("k", std::move(x));
            }
            else
            {
                y.items.push_back(std::move(x));
            }
            x = std::move(y);
        }
        v.at("chain") = x;
    }
    return v;
}

// ---------------------------------------------------------------------------------------------------------------------
// Writing with free layout (source of choices decides the whitespace and the escapes)
// ---------------------------------------------------------------------------------------------------------------------
inline void blank(Src& s, std::string& out)
{
    static const char ws[] = {' ', '\n', '\t', '\r'};
    if (s.chance(1, 3))
    {
        const size_t n = (s.chance(1, 20) ? s.length(60) : 1 + s.below(3)) + surplus(s, 9000);
        for (size_t i = 0; i < n; ++i)
        {
            out += ws[s.below(4)];
        }
    }
}
inline void hex4(Src& s, std::string& out, uint32_t c)
{
    out += "\\u";
    for (int shift = 12; shift >= 0; shift -= 4)
    {
        const uint32_t d = (c >> shift) & 15;
        out += static_cast<char>(d < 10 ? '0' + d : (s.flip() ? 'A' : 'a') + d - 10);
    }
}
inline void write_string(Src& s, std::string& out, const std::string& text)
{
    static const std::string shorts = "\"\\/\b\f\n\r\t", letters = "\"\\/bfnrt";
    Cps cps;
    split_utf8(text, cps);
    const bool escape_happy = s.chance(1, 4);
    out += '"';
    for (auto c : cps)
    {
        const size_t at = c < 0x80 ? shorts.find(static_cast<char>(c)) : std::string::npos;
        const bool must = c < 0x20 || c == '"' || c == '\\';
        if (at != std::string::npos && (must || s.flip()) && !s.chance(1, 4))
        {
            out += '\\';
            out += letters[at];
        }
        else if (must || (escape_happy ? s.flip() : s.chance(1, 12)))
        {
            if (c >= 0x10000)
            {
                hex4(s, out, 0xD800 + ((c - 0x10000) >> 10));
                hex4(s, out, 0xDC00 + ((c - 0x10000) & 0x3FF));
            }
            else
            {
                hex4(s, out, c);
            }
        }
        else
        {
            put_utf8(out, c);
        }
    }
    out += '"';
}
// The numeric text of a fraction or exponent number whose value is in the range of the library's number type
inline std::string float_text(Src& s)
{
    std::string t;
    for (;;)
    {
        t.clear();
        t += s.chance(1, 3) ? "-" : "";
        const size_t lead = s.below(4);
        if (lead == 0)
        {
            t += '0';
        }
        else
        {
            t += static_cast<char>('1' + s.below(9));
            for (size_t i = 1, n = s.chance(1, 8) ? s.length(45) : lead; i < n; ++i)
            {
                t += static_cast<char>('0' + s.below(10));
            }
        }
        const bool fraction = s.chance(2, 3);
        if (fraction)
        {
            t += '.';
            for (size_t i = 0, n = 1 + (s.chance(1, 8) ? s.length(45) : s.below(6)); i < n; ++i)
            {
                t += static_cast<char>('0' + s.below(10));
            }
        }
        if (!fraction || s.chance(1, 3))
        {
            t += s.flip() ? 'E' : 'e';
            t += s.pick<const char*>({"", "+", "-"});
            t += s.chance(1, 6) ? "0" : "";
            t += std::to_string(s.chance(1, 4) ? s.below(45) : s.below(10));
        }
        errno = 0;
        const double v = strtod(t.c_str(), nullptr);
        if (errno == 0 && std::fabs(v) <= FLT_MAX && (v == 0 || std::fabs(v) >= 1e-43))
        {
            return t;
        }
    }
}
// Writes a value; floating values get a fresh text and the value that text denotes
inline void write_value(Src& s, std::string& out, JV& v)
{
    blank(s, out);
    switch (v.kind)
    {
        case JV::Null:
            out += "null";
            break;
        case JV::Bool:
            out += v.b ? "true" : "false";
            break;
        case JV::Int:
            out += v.i == 0 && s.chance(1, 8) ? "-0" : std::to_string(v.i);
            break;
        case JV::Float:
        {
            const std::string t = float_text(s);
            v.f = static_cast<float>(strtod(t.c_str(), nullptr));
            out += t;
            break;
        }
        case JV::Str:
            write_string(s, out, v.s);
            break;
        case JV::Arr:
            out += '[';
            for (size_t i = 0; i < v.items.size(); ++i)
            {
                out += i ? "," : "";
                write_value(s, out, v.items[i]);
            }
            if (v.items.empty())
            {
                blank(s, out);
            }
            out += ']';
            break;
        default:
        {
            out += '{';
            bool first = true;
            for (auto& m : v.members)
            {
                if (s.chance(1, 12)) // an earlier value of the same name
                {
                    JV old = json_scalar(s);
                    out += first ? "" : ",";
                    first = false;
                    blank(s, out);
                    write_string(s, out, m.first);
                    blank(s, out);
                    out += ':';
                    write_value(s, out, old);
                }
                out += first ? "" : ",";
                first = false;
                blank(s, out);
                write_string(s, out, m.first);
                blank(s, out);
                out += ':';
                write_value(s, out, m.second);
            }
            if (v.members.empty())
            {
                blank(s, out);
            }
            out += '}';
        }
    }
    blank(s, out);
}

// ---------------------------------------------------------------------------------------------------------------------
// What the grammar says about a text
// ---------------------------------------------------------------------------------------------------------------------
class JsonGrammar
{
public:
    enum Verdict
    {
        Valid,
        Unspecified, // not JSON, but of a form the library may accept
        Invalid
    };

    Verdict judge(const Cps& text, JV& value)
    {
        t_ = &text;
        p_ = 0;
        depth_ = max_depth_ = 0;
        bad_ = odd_ = tiny_ = false;
        space();
        if (!at('{'))
        {
            return Invalid;
        }
        value = parse();
        space();
        if (!bad_ && p_ < t_->size())
        {
            bad_ = true;
        }
        if (bad_)
        {
            return Invalid;
        }
        return odd_ || tiny_ || max_depth_ > 500 ? Unspecified : Valid;
    }
    // Unspecified for another reason than depth and very small numbers
    bool odd() const
    {
        return odd_;
    }

private:
    bool at(uint32_t c) const
    {
        return p_ < t_->size() && (*t_)[p_] == c;
    }
    static bool unicode_space(uint32_t c)
    {
        return (c >= 9 && c <= 13) || c == 32 || c == 0x85 || c == 0xA0 || c == 0x1680 || (c >= 0x2000 && c <= 0x200A) || c == 0x2028 ||
            c == 0x2029 || c == 0x202F || c == 0x205F || c == 0x3000;
    }
    void space()
    {
        while (p_ < t_->size() && unicode_space((*t_)[p_]))
        {
            const uint32_t c = (*t_)[p_];
            odd_ |= !(c == ' ' || c == '\t' || c == '\n' || c == '\r');
            ++p_;
        }
    }
    JV fail()
    {
        bad_ = true;
        return JV();
    }
    bool word(const char* w)
    {
        for (; *w; ++w)
        {
            if (!at(static_cast<unsigned char>(*w)))
            {
                return false;
            }
            ++p_;
        }
        return true;
    }
    JV parse()
    {
        space();
        if (p_ >= t_->size() || bad_)
        {
            return fail();
        }
        const uint32_t c = (*t_)[p_];
        if (c == '{' || c == '[')
        {
            if (depth_ > 3000)
            {
                return fail();
            }
            max_depth_ = std::max(max_depth_, ++depth_);
            JV v = nested(c == '{');
            --depth_;
            return v;
        }
        if (c == '"')
        {
            return JV::of_str(string());
        }
        if (c == 't')
        {
            return word("true") ? JV::of_bool(true) : fail();
        }
        if (c == 'f')
        {
            return word("false") ? JV::of_bool(false) : fail();
        }
        if (c == 'n')
        {
            return word("null") ? JV() : fail();
        }
        return number();
    }
    JV nested(bool object)
    {
        JV v(object ? JV::Obj : JV::Arr);
        const uint32_t close = object ? '}' : ']';
        ++p_;
        space();
        if (at(close))
        {
            ++p_;
            return v;
        }
        for (;;)
        {
            std::string key;
            if (object)
            {
                space();
                if (!at('"'))
                {
                    return fail();
                }
                key = string();
                space();
                if (bad_ || !at(':'))
                {
                    return fail();
                }
                ++p_;
            }
            JV x = parse();
            if (bad_)
            {
                return JV();
            }
            if (object)
            {
                v.at(key) = x;
            }
            else
            {
                v.items.push_back(x);
            }
            space();
            if (at(close))
            {
                ++p_;
                return v;
            }
            if (!at(','))
            {
                return fail();
            }
            ++p_;
        }
    }
    bool hex(uint32_t& out)
    {
        out = 0;
        for (int i = 0; i < 4; ++i, ++p_)
        {
            const uint32_t c = p_ < t_->size() ? (*t_)[p_] : 0;
            if (c >= '0' && c <= '9')
            {
                out = out * 16 + c - '0';
            }
            else if ((c | 32) >= 'a' && (c | 32) <= 'f')
            {
                out = out * 16 + (c | 32) - 'a' + 10;
            }
            else
            {
                return false;
            }
        }
        return true;
    }
    std::string string()
    {
        std::string r;
        ++p_;
        while (p_ < t_->size() && !at('"'))
        {
            const uint32_t c = (*t_)[p_++];
            if (c != '\\')
            {
                odd_ |= c < 0x20;
                put_utf8(r, c);
                continue;
            }
            const uint32_t e = p_ < t_->size() ? (*t_)[p_++] : 0;
            switch (e)
            {
                case '"':
                case '\\':
                case '/':
                    r += static_cast<char>(e);
                    break;
                case 'b':
                    r += '\b';
                    break;
                case 'f':
                    r += '\f';
                    break;
                case 'n':
                    r += '\n';
                    break;
                case 'r':
                    r += '\r';
                    break;
                case 't':
                    r += '\t';
                    break;
                case 'u':
                {
                    uint32_t a = 0, b = 0;
                    if (!hex(a))
                    {
                        fail();
                        return r;
                    }
                    if (a >= 0xDC00 && a <= 0xDFFF)
                    {
                        fail();
                        return r;
                    }
                    if (a >= 0xD800 && a <= 0xDBFF)
                    {
                        if (!word("\\u") || !hex(b) || b < 0xDC00 || b > 0xDFFF)
                        {
                            fail();
                            return r;
                        }
                        a = 0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00);
                    }
                    odd_ |= a == 0;
                    put_utf8(r, a);
                    break;
                }
                default:
                    fail();
                    return r;
            }
        }
        if (!at('"'))
        {
            fail();
            return r;
        }
        ++p_;
        return r;
    }
    size_t digits(std::string& n)
    {
        size_t k = 0;
        while (p_ < t_->size() && (*t_)[p_] >= '0' && (*t_)[p_] <= '9')
        {
            n += static_cast<char>((*t_)[p_++]);
            ++k;
        }
        return k;
    }
    JV number()
    {
        std::string n;
        bool floating = false;
        if (at('-') || at('+'))
        {
            odd_ |= at('+');
            n += static_cast<char>((*t_)[p_++]);
        }
        const size_t begin = n.size();
        const size_t whole = digits(n);
        if (whole == 0)
        {
            return fail();
        }
        odd_ |= whole > 1 && n[begin] == '0';
        if (at('.'))
        {
            floating = true;
            n += '.';
            ++p_;
            if (digits(n) == 0)
            {
                return fail();
            }
        }
        if (at('e') || at('E'))
        {
            floating = true;
            n += 'e';
            ++p_;
            if (at('-') || at('+'))
            {
                n += static_cast<char>((*t_)[p_++]);
            }
            if (digits(n) == 0)
            {
                return fail();
            }
        }
        errno = 0;
        if (floating)
        {
            const double v = strtod(n.c_str(), nullptr);
            if (std::fabs(v) > static_cast<double>(FLT_MAX))
            {
                return fail();
            }
            tiny_ |= errno != 0 || (v != 0 && std::fabs(v) < FLT_MIN);
            return JV::of_float(static_cast<float>(v));
        }
        const long long v = strtoll(n.c_str(), nullptr, 10);
        if (errno != 0)
        {
            return fail();
        }
        return JV::of_int(v);
    }

    const Cps* t_ = nullptr;
    size_t p_ = 0, depth_ = 0, max_depth_ = 0;
    bool bad_ = false, odd_ = false, tiny_ = false;
};

// ---------------------------------------------------------------------------------------------------------------------
// Comparing what the library shows with the model
// ---------------------------------------------------------------------------------------------------------------------
inline std::string bytes_of(const Caitlyn::String& s)
{
    return s.str();
}

// Exact comparison through the public accessors
inline void same(Ctx& c, JData& d, const JV& v, const std::string& path)
{
    const JData& k = d;
    auto where = [&](const char* what) { return what + (" at " + path); };
    if (k.GetType() != class_of(v.kind))
    {
        c.fail(where("wrong kind") + ", expected " + kind_name(v.kind) + ", document says class " +
               std::to_string(static_cast<int>(k.GetType())));
    }
    c.check(k.IsNull() == (v.kind == JV::Null) && k.IsObject() == (v.kind == JV::Obj) && k.IsArray() == (v.kind == JV::Arr) &&
                k.IsString() == (v.kind == JV::Str) && k.IsFloating() == (v.kind == JV::Float) &&
                k.IsIntegral() == (v.kind == JV::Int) && k.IsBoolean() == (v.kind == JV::Bool),
            where("kind predicates disagree"));
    c.eq(k.GetIntegral(), v.kind == JV::Int ? v.i : int64_t{0}, where("integral value").c_str());
    c.eq(k.GetBoolean(), v.kind == JV::Bool && v.b, where("boolean value").c_str());
    const float f = k.GetFloating();
    c.check(v.kind == JV::Float ? f == v.f : f == 0, where("floating value") + ": got " + std::to_string(f));
    c.eq(bytes_of(k.GetString()), v.kind == JV::Str ? v.s : std::string(), where("text value").c_str());
    const size_t size = v.kind == JV::Arr ? v.items.size() : v.kind == JV::Obj ? v.members.size() : static_cast<size_t>(-1);
    c.eq(static_cast<size_t>(k.Size()), size, where("size").c_str());
    c.eq(static_cast<size_t>(k.Length()), size, where("length").c_str());
    if (v.kind == JV::Arr)
    {
        for (size_t i = 0; i < v.items.size(); ++i)
        {
            const JData& e = k.At(static_cast<Caitlyn::SizeType>(i));
            same(c, const_cast<JData&>(e), v.items[i], path + "[" + std::to_string(i) + "]");
        }
    }
    else if (v.kind == JV::Obj)
    {
        auto& data = d.GetData();
        for (size_t i = 0; i < v.members.size(); ++i)
        {
            const auto& m = v.members[i];
            c.eq(bytes_of(data[i].first), m.first, where("member name").c_str());
            c.check(k.HasMember(Caitlyn::String(m.first)), where("HasMember denies a member"));
            const JData& e = k.At(Caitlyn::String(m.first));
            c.check(&e == data[i].second, where("At finds another member"));
            same(c, const_cast<JData&>(e), m.second, path + "." + show(m.first));
        }
    }
}

// Equality of two models; loose: as after one serialisation (a whole floating value may be an integer, 6 digits)
inline bool near(double got, double want)
{
    return std::fabs(got - want) <= 5.2e-6 * std::fabs(want) + 1.5e-45;
}
inline void alike(Ctx& c, const JV& got, const JV& want, const std::string& path)
{
    auto where = [&](const char* what) { return what + (" at " + path); };
    if (want.kind == JV::Float && (got.kind == JV::Float || got.kind == JV::Int))
    {
        const double g = got.kind == JV::Float ? static_cast<double>(got.f) : static_cast<double>(got.i);
        c.check(near(g, static_cast<double>(want.f)), where("floating value") + ": got " + dump(got) + ", expected " + dump(want));
        return;
    }
    c.eq(kind_name(got.kind), std::string(kind_name(want.kind)), where("kind").c_str());
    c.eq(got.i, want.i, where("integral value").c_str());
    c.eq(got.b, want.b, where("boolean value").c_str());
    c.eq(got.s, want.s, where("text value").c_str());
    c.eq(got.items.size(), want.items.size(), where("array size").c_str());
    c.eq(got.members.size(), want.members.size(), where("object size").c_str());
    for (size_t i = 0; i < got.items.size(); ++i)
    {
        alike(c, got.items[i], want.items[i], path + "[" + std::to_string(i) + "]");
    }
    for (size_t i = 0; i < got.members.size(); ++i)
    {
        c.eq(got.members[i].first, want.members[i].first, where("member name").c_str());
        alike(c, got.members[i].second, want.members[i].second, path + "." + show(want.members[i].first));
    }
}

// The library's value as a model (through the public accessors)
inline JV view(JData& d)
{
    JV v;
    if (d.IsBoolean())
    {
        v = JV::of_bool(d.GetBoolean());
    }
    else if (d.IsIntegral())
    {
        v = JV::of_int(d.GetIntegral());
    }
    else if (d.IsFloating())
    {
        v = JV::of_float(d.GetFloating());
    }
    else if (d.IsString())
    {
        v = JV::of_str(bytes_of(d.GetString()));
    }
    else if (d.IsArray())
    {
        v.kind = JV::Arr;
        for (size_t i = 0; i < static_cast<size_t>(d.Size()); ++i)
        {
            v.items.push_back(view(d.At(static_cast<Caitlyn::SizeType>(i))));
        }
    }
    else if (d.IsObject())
    {
        v.kind = JV::Obj;
        for (auto& m : d.GetData())
        {
            v.members.emplace_back(bytes_of(m.first), view(*m.second));
        }
    }
    return v;
}

inline Caitlyn::String lib(const std::string& s)
{
    return Caitlyn::String(s);
}

// A text the library printed must be JSON and denote `want`; returns the model of the text
inline JV read_back(Ctx& c, const std::string& text, const JV& want, const char* what)
{
    Cps cps;
    c.check(split_utf8(text, cps), std::string(what) + ": not UTF-8");
    JV got;
    // a document that holds no object prints a bare value; wrap it to use the same grammar
    const bool wrapped = want.kind != JV::Obj;
    if (wrapped)
    {
        split_utf8("{\"v\":" + text + "}", cps);
    }
    JsonGrammar grammar;
    const auto verdict = grammar.judge(cps, got);
    // any depth is allowed here, and so are numbers too small for the parser
    c.check(verdict != JsonGrammar::Invalid && !grammar.odd(), std::string(what) + " is not valid JSON: " + show(text));
    if (wrapped)
    {
        c.check(got.members.size() == 1, std::string(what) + " is not one value: " + show(text));
        JV inner = got.members[0].second;
        got = inner;
    }
    alike(c, got, want, what);
    return got;
}

} // namespace pbt

#endif // PBT_JSON_H_
