// J01: serialising a document gives valid JSON that parses back to an equal document, compact or indented.
#include "json.h"

using namespace pbt;
using Caitlyn::JsonDocument;
using Caitlyn::SizeType;
namespace Json = Caitlyn::Json;

static void set_scalar(Src& s, JData& d, const JV& v)
{
    switch (v.kind)
    {
        case JV::Null:
            d = Json::MakeNull();
            break;
        case JV::Bool:
            d = v.b;
            break;
        case JV::Int:
            if (v.i == static_cast<int>(v.i) && s.flip())
            {
                d = static_cast<int>(v.i);
            }
            else
            {
                d = v.i;
            }
            break;
        case JV::Float:
            if (s.flip())
            {
                d = v.f;
            }
            else
            {
                d = static_cast<double>(v.f);
            }
            break;
        default:
            if (s.flip())
            {
                d = v.s;
            }
            else
            {
                d = v.s.c_str();
            }
    }
}
static JData make_scalar(Src& s, const JV& v)
{
    if (s.flip())
    {
        switch (v.kind)
        {
            case JV::Null:
                return Json::MakeNull();
            case JV::Bool:
                return Json::MakeBoolean(v.b);
            case JV::Int:
                return Json::MakeIntegral(v.i);
            case JV::Float:
                return Json::MakeFloating(v.f);
            default:
                return Json::MakeString(v.s);
        }
    }
    switch (v.kind)
    {
        case JV::Null:
            return JData();
        case JV::Bool:
            return JData(v.b);
        case JV::Int:
            return JData(v.i);
        case JV::Float:
            return JData(v.f);
        default:
            return s.flip() ? JData(v.s) : JData(v.s.c_str());
    }
}
static JData make(Src& s, const JV& v);
static void assign(Src& s, JData& d, const JV& v)
{
    if (v.kind == JV::Obj)
    {
        if (v.members.empty() || s.flip())
        {
            d = Json::MakeObject();
        }
        for (auto& m : v.members)
        {
            if (s.chance(1, 4))
            {
                d.At(lib(m.first)) = make(s, m.second);
            }
            else
            {
                assign(s, d[lib(m.first)], m.second);
            }
        }
    }
    else if (v.kind == JV::Arr)
    {
        if (v.items.empty() || s.flip())
        {
            d = Json::MakeArray();
        }
        for (size_t i = 0; i < v.items.size(); ++i)
        {
            switch (s.below(4))
            {
                case 0:
                    d.Append(make(s, v.items[i]));
                    break;
                case 1:
                    d.At(static_cast<SizeType>(i)) = make(s, v.items[i]);
                    break;
                default:
                    assign(s, d[static_cast<SizeType>(i)], v.items[i]);
            }
        }
    }
    else
    {
        set_scalar(s, d, v);
    }
}
static JData make(Src& s, const JV& v)
{
    if (v.kind == JV::Arr && v.items.size() == 1 && s.flip())
    {
        return Json::MakeArray(make(s, v.items[0]));
    }
    if (v.kind == JV::Arr && v.items.size() == 3 && s.flip())
    {
        return Json::MakeArray(make(s, v.items[0]), make(s, v.items[1]), make(s, v.items[2]));
    }
    if (v.kind == JV::Arr && v.items.size() == 2 && s.flip())
    {
        JData d = Json::MakeArray();
        d.Append(make(s, v.items[0]), make(s, v.items[1]));
        return d;
    }
    if (v.kind == JV::Arr || v.kind == JV::Obj)
    {
        JData d;
        assign(s, d, v);
        return d;
    }
    return make_scalar(s, v);
}

// Whitespace outside strings removed
static std::string squeeze(const std::string& t)
{
    std::string r;
    bool in = false;
    for (size_t i = 0; i < t.size(); ++i)
    {
        if (in && t[i] == '\\' && i + 1 < t.size())
        {
            r += t[i++];
        }
        else if (t[i] == '"')
        {
            in = !in;
        }
        else if (!in && (t[i] == ' ' || t[i] == '\n' || t[i] == '\t' || t[i] == '\r'))
        {
            continue;
        }
        r += t[i];
    }
    return r;
}
static bool has_negative_zero(const JV& v)
{
    if (v.kind == JV::Float && v.f == 0 && std::signbit(v.f))
    {
        return true;
    }
    for (auto& m : v.members)
    {
        if (has_negative_zero(m.second))
        {
            return true;
        }
    }
    for (auto& m : v.items)
    {
        if (has_negative_zero(m))
        {
            return true;
        }
    }
    return false;
}
static bool needs_escape(const JV& v)
{
    auto odd = [](const std::string& t)
    {
        for (unsigned char ch : t)
        {
            if (ch < 0x20 || ch == '"' || ch == '\\' || ch >= 0x80)
            {
                return true;
            }
        }
        return false;
    };
    if (odd(v.s))
    {
        return true;
    }
    for (auto& m : v.members)
    {
        if (odd(m.first) || needs_escape(m.second))
        {
            return true;
        }
    }
    for (auto& m : v.items)
    {
        if (needs_escape(m))
        {
            return true;
        }
    }
    return false;
}

static void run(Src& s, Ctx& c)
{
    const JV want = json_object(s);
    const size_t indent = s.chance(1, 10) ? s.length(40) : s.below(9);
    c.log << dump(want) << " indent " << indent;
    JsonDocument doc;
    for (auto& m : want.members)
    {
        if (s.flip())
        {
            doc.AddMember(lib(m.first), make(s, m.second));
        }
        else
        {
            assign(s, doc[lib(m.first)], m.second);
        }
    }
    // what was built is what was meant (kinds and values exactly)
    for (auto& m : want.members)
    {
        same(c, doc[lib(m.first)], m.second, show(m.first));
    }
    const std::string compact = bytes_of(doc.ToString());
    const std::string pretty = bytes_of(doc.ToString(true, static_cast<SizeType>(indent)));
    c.eq(bytes_of(doc.ToString(false, static_cast<SizeType>(indent))), compact, "compact output with an indent width");
    {
        std::ostringstream o;
        o << doc;
        read_back(c, o.str(), want, "stream output");
        c.eq(squeeze(o.str()), squeeze(compact), "stream output without whitespace");
    }
    read_back(c, compact, want, "compact output");
    read_back(c, pretty, want, "indented output");
    c.eq(squeeze(pretty), squeeze(compact), "indented output without whitespace");
    if (!want.members.empty())
    {
        const auto& m = want.members[s.below(want.members.size())];
        const JData& d = doc[lib(m.first)];
        read_back(c, bytes_of(d.ToString()), m.second, "compact output of a part");
        read_back(c, bytes_of(d.ToString(true, static_cast<SizeType>(indent))), m.second, "indented output of a part");
    }
    const bool zero = has_negative_zero(want);
    for (const std::string* text : {&compact, &pretty})
    {
        JsonDocument again;
        switch (s.below(3))
        {
            case 0:
                again.Parse(lib(*text));
                break;
            case 1:
                again = lib(*text);
                break;
            default:
            {
                std::istringstream in(*text);
                in >> again;
            }
        }
        c.check(!again.HasError(), "the output does not parse: " + bytes_of(again.GetErrorString()) + " in " + show(*text));
        c.check(again.GetType() == JsonClass::Object, "the re-parsed document is no object");
        c.eq(static_cast<size_t>(again.Size()), want.members.size(), "members of the re-parsed document");
        for (auto& m : want.members)
        {
            c.check(again.HasMember(lib(m.first)), "a member is gone: " + show(m.first));
            alike(c, view(again[lib(m.first)]), m.second, "re-parsed " + show(m.first));
        }
        if (!zero)
        {
            c.eq(bytes_of(again.ToString()), compact, "the re-parsed document serialised again");
            c.eq(bytes_of(again.ToString(true, static_cast<SizeType>(indent))), pretty, "the re-parsed document indented again");
        }
    }
    const size_t depth = want.depth();
    c.label_if(depth >= 3, "depth >= 3");
    c.label_if(depth >= 20, "depth >= 20");
    c.label_if(needs_escape(want), "texts to escape or not ASCII");
    c.label_if(zero, "negative zero");
    c.label_if(indent == 0, "indent 0");
    c.nontrivial = want.nodes() >= 4 && depth >= 2;
}

static const Config cfg{"J01", run, 0, nullptr, true};
PBT_MAIN(cfg)
