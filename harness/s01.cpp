// S01: text survives decoding and re-encoding; malformed bytes are refused; nothing outside the text is read.
#include <list>
#include <Caitlyn/String>
#include "gen.h"

using namespace pbt;
using Caitlyn::Char;
using Caitlyn::String;

static void expect(Ctx& c, const String& s, const Cps& cps, const std::string& bytes, const char* way)
{
    c.eq(s.size(), cps.size(), (std::string("size of string built by ") + way).c_str());
    c.eq(s.Length(), cps.size(), "Length");
    c.eq(s.ByteCount(), bytes.size(), (std::string("ByteCount of string built by ") + way).c_str());
    c.eq(s.str(), bytes, (std::string("bytes of string built by ") + way).c_str());
    c.eq(s.IsEmpty(), cps.empty(), "IsEmpty");
    for (size_t i = 0; i < cps.size(); ++i)
    {
        if (s[i].GetCodePoint() != cps[i])
        {
            std::ostringstream o;
            o << way << ": code point " << i << " is " << s[i].GetCodePoint() << ", expected " << cps[i];
            c.fail(o.str());
        }
    }
    std::ostringstream os;
    os << s;
    c.eq(os.str(), bytes, "stream output");
    const auto data = s.data();
    c.eq(data.size(), cps.size(), "data().size()");
}

static String build(Ctx& c, size_t way, const Cps& cps, const std::string& bytes, size_t cut)
{
    const CText text(bytes);
    const size_t k = cps.empty() ? 0 : cut % (cps.size() + 1);
    const std::string left = utf8(Cps(cps.begin(), cps.begin() + k)), right = utf8(Cps(cps.begin() + k, cps.end()));
    const CText l(left), r(right);
    std::vector<Char> chars;
    for (auto cp : cps)
    {
        chars.emplace_back(static_cast<Caitlyn::CodePoint>(cp));
    }
    switch (way)
    {
        case 0:
            return String(text.get());
        case 1:
            return String(std::string(text.get()));
        case 2:
            return String(chars);
        case 3:
            return String(chars.begin(), chars.end());
        case 4:
        {
            std::list<Char> list(chars.begin(), chars.end());
            return String(list.begin(), list.end());
        }
        case 5:
        {
            String s;
            s.Append(text.get());
            return s;
        }
        case 6:
        {
            String s(l.get());
            s.Append(r.get());
            return s;
        }
        case 7:
        {
            String s(r.get());
            s.Insert(0, l.get());
            return s;
        }
        case 8:
        {
            String s;
            for (auto& ch : chars)
            {
                s.PushBack(ch);
            }
            return s;
        }
        case 9:
        {
            String s(l.get());
            s += String(r.get());
            return s;
        }
        case 10:
            return String(l.get()) + String(r.get());
        case 11:
        {
            String s;
            s = text.get();
            return s;
        }
        case 12:
        {
            // one line of a stream
            for (auto cp : cps)
            {
                if (cp == '\n')
                {
                    return String(text.get());
                }
            }
            std::istringstream is(bytes + "\nrest");
            String s("old");
            is >> s;
            return s;
        }
        case 13:
            return Caitlyn::String::Format("{}", String(text.get()));
        case 14:
        {
            String s(l.get());
            s.Insert(s.size(), String(r.get()));
            return s;
        }
        case 15:
        {
            const String s(text.get());
            return String(s.begin(), s.end());
        }
        case 16:
            return operator""_str(text.get(), bytes.size());
        case 17:
        {
            String s;
            for (auto cp : cps)
            {
                const std::string one = utf8(cp);
                s.Append(1, one.c_str());
            }
            return s;
        }
        case 18:
        {
            const String s(text.get());
            return s.Substring(0, k) + s.Substring(k);
        }
        default:
        {
            String s;
            for (auto cp : cps)
            {
                s.Append(1, Char(static_cast<Caitlyn::CodePoint>(cp)));
            }
            return s;
        }
    }
}
constexpr size_t Ways = 20;
static const char* const WayNames[] = {"C text", "std::string", "vector of characters", "range", "list range", "Append", "C text + Append", "Insert at 0",
    "PushBack", "+=", "operator+", "assignment", "operator>>", "Format", "Insert String at end", "range over a String", "literal", "Append(1, bytes)", "Substring halves", "Append(1, Char)"};

static void valid_case(Src& s, Ctx& c)
{
    const Cps cps = stretched(s, text(s, 1100));
    const std::string bytes = utf8(cps);
    const size_t way = s.below(Ways);
    const size_t cut = s.below(cps.size() + 1);
    c.log << WayNames[way] << " cut " << cut << " " << show(bytes);
    bool multi = false;
    for (auto cp : cps)
    {
        multi |= cp >= 0x80;
    }
    c.nontrivial = multi && cps.size() >= 2;
    c.label("valid");
    c.label_if(cps.empty(), "empty");
    c.label_if(cps.size() > 100, "long");
    const String str = build(c, way, cps, bytes, cut);
    expect(c, str, cps, bytes, WayNames[way]);
    // and back again
    const String again(str.str());
    expect(c, again, cps, bytes, "re-reading its own bytes");
}

static void count_case(Src& s, Ctx& c)
{
    const size_t n = s.length(1100);
    const uint32_t cp = code_point(s);
    const Cps cps(n, cp);
    c.log << n << " x " << show(utf8(cp));
    c.label("count constructor");
    c.nontrivial = n >= 2;
    expect(c, String(n, Char(static_cast<Caitlyn::CodePoint>(cp))), cps, utf8(cps), "count and character");
    if (cp < 0x80)
    {
        expect(c, String(n, static_cast<char>(cp)), cps, utf8(cps), "count and char");
    }
    String a("x");
    a.Append(n, Char(static_cast<Caitlyn::CodePoint>(cp)));
    Cps m(1, 'x');
    m.insert(m.end(), n, cp);
    expect(c, a, m, utf8(m), "Append count");
    const std::string one = utf8(cp);
    const CText t(one);
    String d("x");
    d.Append(n, t.get());
    expect(c, d, m, utf8(m), "Append count of bytes");
}

static void malformed_case(Src& s, Ctx& c)
{
    std::string bytes = utf8(text_of(s, 40, code_point));
    const size_t edits = 1 + s.below(3);
    for (size_t e = 0; e < edits; ++e)
    {
        const size_t pos = s.below(bytes.size() + 1);
        switch (s.below(5))
        {
            case 0: // truncate
                bytes.resize(pos);
                break;
            case 1: // drop one byte
                if (pos < bytes.size())
                {
                    bytes.erase(pos, 1);
                }
                break;
            case 2: // stray byte
                bytes.insert(pos, 1, static_cast<char>(s.pick<int>({0x80, 0xBF, 0xC3, 0xE2, 0xF0, 0xF8, 0xFC, 0xFE, 0xFF, 0x9F})));
                break;
            case 3: // overwrite
                if (pos < bytes.size())
                {
                    bytes[pos] = static_cast<char>(s.range(1, 255));
                }
                break;
            default:
                bytes.insert(pos, 1, static_cast<char>(s.range(0x80, 255)));
                break;
        }
    }
    Cps cps;
    const bool ok = split_utf8(bytes, cps);
    if (ok)
    {
        // structurally complete but overlong, surrogate or too large: not specified
        if (utf8(cps) != bytes)
        {
            c.label("unspecified encoding");
            return;
        }
        for (auto cp : cps)
        {
            if (cp > 0x10FFFF || (cp >= 0xD800 && cp <= 0xDFFF) || cp == 0)
            {
                c.label("unspecified encoding");
                return;
            }
        }
    }
    const size_t way = s.below(9);
    c.log << "bytes " << show(bytes) << " by entry " << way << (ok ? " (well-formed)" : " (malformed)");
    c.nontrivial = !ok;
    c.label(ok ? "still well-formed" : "malformed");
    const CText t(bytes);
    const std::string str(bytes);
    String result;
    auto run = [&]()
    {
        switch (way)
        {
            case 0:
                result = String(t.get());
                break;
            case 1:
                result = String(str);
                break;
            case 2:
                result.Append(t.get());
                break;
            case 3:
                result.Insert(0, t.get());
                break;
            case 4:
                result = t.get();
                break;
            case 5:
            {
                std::istringstream is(bytes);
                if (bytes.find('\n') != std::string::npos)
                {
                    result = t.get();
                    break;
                }
                is >> result;
                break;
            }
            case 6:
                result += t.get();
                break;
            case 7:
                result = String("") + t.get();
                break;
            default:
                result = operator""_str(t.get(), bytes.size());
                break;
        }
    };
    if (ok)
    {
        run();
        expect(c, result, cps, bytes, "possibly damaged bytes");
    }
    else
    {
        c.must_throw(run, ("malformed text " + show(bytes)).c_str());
    }
}

// Strings read from a stream one after the other: each line once, then the stream is at its end
static void stream_case(Src& s, Ctx& c)
{
    std::vector<std::string> lines;
    std::string all;
    const size_t n = s.below(6);
    const bool ended = s.flip();
    for (size_t i = 0; i < n; ++i)
    {
        Cps cps = text(s, 30);
        cps.erase(std::remove(cps.begin(), cps.end(), uint32_t{'\n'}), cps.end());
        lines.push_back(stretched(s, utf8(cps)));
        all += lines.back() + (i + 1 < n || ended ? "\n" : "");
    }
    if (n > 0 && !ended && lines.back().empty())
    {
        lines.pop_back();
    }
    c.log << "read from a stream " << show(all);
    std::istringstream is(all);
    String str("old");
    size_t seen = 0;
    if (s.flip())
    {
        while (is >> str)
        {
            c.check(seen < lines.size(), "reading goes on behind the last line");
            c.eq(str.str(), lines[seen++], "line");
        }
        c.eq(seen, lines.size(), "lines");
    }
    else // several at once
    {
        String a("a"), b("b"), d("d");
        is >> a >> b >> d;
        c.eq(!is.fail(), lines.size() >= 3, "three lines could be read");
        size_t i = 0;
        for (const String* x : {&a, &b, &d})
        {
            if (i < lines.size())
            {
                c.eq(x->str(), lines[i], "line");
            }
            ++i;
        }
    }
    c.label("lines of a stream");
    c.nontrivial = lines.size() > 1;
}

static void one(Src& s, Ctx& c)
{
    switch (s.weighted({10, 2, 10, 1}))
    {
        case 0:
            return valid_case(s, c);
        case 1:
            return count_case(s, c);
        case 3:
            return stream_case(s, c);
        default:
            return malformed_case(s, c);
    }
}

static const Config cfg{"S01", one};
PBT_MAIN(cfg)
