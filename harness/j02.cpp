// J02: parsing valid JSON yields exactly the described value.
#include "json.h"

using namespace pbt;
using Caitlyn::JsonDocument;

struct ScratchFile
{
    std::string path;
    explicit ScratchFile(const std::string& content)
    {
        char name[] = "/tmp/pbt-json-XXXXXX";
        const int fd = mkstemp(name);
        path = name;
        for (size_t done = 0; fd >= 0 && done < content.size();)
        {
            const ssize_t n = write(fd, content.data() + done, content.size() - done);
            if (n <= 0)
            {
                break;
            }
            done += static_cast<size_t>(n);
        }
        close(fd);
    }
    ~ScratchFile()
    {
        unlink(path.c_str());
    }
};

static std::string order_of(const JsonDocument& d)
{
    return bytes_of(d.ToString());
}

// Floating values follow the text; both roundings (through double or directly) are acceptable single-precision values,
// so the text's own value is compared first
static void check_document(Ctx& c, JsonDocument& doc, const JV& want)
{
    c.check(!doc.HasError(), "refused: " + bytes_of(doc.GetErrorString()));
    c.check(doc.GetError() == JsonDocument::ErrorType::NoError, "an error code without an error");
    c.check(doc.GetType() == JsonClass::Object, "no object");
    c.eq(static_cast<size_t>(doc.Size()), want.members.size(), "number of members");
    for (auto& m : want.members)
    {
        c.check(doc.HasMember(lib(m.first)), "HasMember denies " + show(m.first));
        same(c, const_cast<JData&>(static_cast<const JsonDocument&>(doc)[lib(m.first)]), m.second, show(m.first));
    }
    c.check(!doc.HasMember(lib("no such name")), "HasMember affirms an absent name");
    // order of the top-level members
    Cps cps;
    JV printed;
    split_utf8(order_of(doc), cps);
    c.check(JsonGrammar().judge(cps, printed) != JsonGrammar::Invalid, "the document does not print as JSON");
    for (size_t i = 0; i < want.members.size() && i < printed.members.size(); ++i)
    {
        c.eq(printed.members[i].first, want.members[i].first, "top-level member order");
    }
}

static void run(Src& s, Ctx& c)
{
    JV want = json_object(s, 5, 30);
    std::string text;
    if (s.chance(1, 200)) // deep nesting within the promised limit
    {
        const size_t n = s.chance(1, 2) ? 490 + s.below(10) : s.below(490);
        std::string open, close;
        JV x = json_scalar(s);
        std::string inner;
        write_value(s, inner, x);
        for (size_t i = 0; i < n; ++i)
        {
            JV y(JV::Arr);
            if (s.flip())
            {
                y.items.push_back(std::move(x));
                inner = "[" + inner + "]";
            }
            else
            {
                y.kind = JV::Obj;
                y.members.emplace_back("d", std::move(x));
                inner = "{\"d\":" + inner + "}";
            }
            x = std::move(y);
        }
        want = JV(JV::Obj);
        want.members.emplace_back("deep", std::move(x));
        text = "{\"deep\":" + inner + "}";
        c.label_if(n >= 490, "depth 491-500");
    }
    else
    {
        write_value(s, text, want);
    }
    c.log << show(text);
    Cps cps;
    JV judged;
    split_utf8(text, cps);
    if (JsonGrammar().judge(cps, judged) != JsonGrammar::Valid)
    {
        throw Discard{}; // a number too small to be promised
    }
    JsonDocument doc;
    if (s.chance(1, 3))
    {
        doc.Parse(lib(s.pick<const char*>({"{\"old\":1}", "{", "{\"a\":[1,2,{}]}"})));
    }
    switch (s.chance(1, 30) ? 4 : s.below(4))
    {
        case 0:
            doc.Parse(lib(text));
            break;
        case 4:
        {
            const ScratchFile file(text);
            std::ifstream in(file.path.c_str(), std::ios::binary);
            switch (s.below(4))
            {
                case 0:
                    doc.Parse(in);
                    break;
                case 1:
                    doc = in;
                    break;
                case 2:
                    doc = Caitlyn::Json::MakeDocument(in);
                    break;
                default:
                {
                    const JsonDocument made(in);
                    doc = made;
                }
            }
            c.label("read from a file");
            break;
        }
        case 1:
            doc = JsonDocument(lib(text));
            break;
        case 2:
        {
            std::istringstream in(text);
            in >> doc;
            break;
        }
        default:
            doc = Caitlyn::Json::MakeDocument(lib(text));
    }
    check_document(c, doc, want);
    bool escapes = text.find("\\u") != std::string::npos, wide = false, ws = false;
    for (unsigned char ch : text)
    {
        wide |= ch >= 0x80;
        ws |= ch == '\n' || ch == '\t' || ch == '\r';
    }
    c.label_if(escapes, "\\u escapes");
    c.label_if(wide, "not ASCII");
    c.label_if(ws, "layout whitespace");
    c.label_if(text.find("\\ud") != std::string::npos || text.find("\\uD") != std::string::npos, "surrogate pairs");
    c.nontrivial = want.nodes() >= 4 && (escapes || wide || ws);
}

// Every character of the BMP and the corners of the other planes, escaped and raw, as value and name
static void all_characters(uint64_t index, Ctx& c)
{
    c.nontrivial = true;
    c.log << "code points from " << index * 0x400;
    const bool raw = index >= 0x110000 / 0x400;
    const auto base = static_cast<uint32_t>((raw ? index - 0x110000 / 0x400 : index) * 0x400);
    std::string text = "{\"k\":\"", want;
    char b[16];
    size_t n = 0;
    for (uint32_t p = base; p < base + 0x400; ++p)
    {
        if (p == 0 || (p >= 0xD800 && p <= 0xDFFF) || (raw && (p < 0x20 || p == '"' || p == '\\')))
        {
            continue;
        }
        ++n;
        put_utf8(want, p);
        if (raw)
        {
            put_utf8(text, p);
        }
        else if (p >= 0x10000)
        {
            snprintf(b, sizeof b, "\\u%04x\\u%04X", 0xD800 + ((p - 0x10000) >> 10), 0xDC00 + ((p - 0x10000) & 0x3FF));
            text += b;
        }
        else
        {
            snprintf(b, sizeof b, p & 1 ? "\\u%04x" : "\\u%04X", p);
            text += b;
        }
    }
    text += "\", \"after\": true}";
    JsonDocument doc(lib(text));
    c.check(!doc.HasError(), "refused");
    c.eq(bytes_of(doc["k"].GetString()), want, "text");
    c.check(doc["after"].GetBoolean(), "the member after it");
}

static const Config cfg{"J02", run, 2 * (0x110000 / 0x400), all_characters, true};
PBT_MAIN(cfg)
