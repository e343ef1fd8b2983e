// J03: invalid JSON is reported as an error; no text crashes the parser; the document recovers.
#include "json.h"

using namespace pbt;
using Caitlyn::JsonDocument;

static void must_be_error(Ctx& c, JsonDocument& doc, const char* why)
{
    c.check(doc.HasError(), std::string("accepted although ") + why);
    c.check(doc.GetError() != JsonDocument::ErrorType::NoError, "HasError without an error code");
    c.check(!bytes_of(doc.GetErrorString()).empty(), "the error has no message");
    c.check(doc.GetType() == JsonClass::Null, "the document is not null after an error");
    c.eq(static_cast<size_t>(doc.Size()), static_cast<size_t>(-1), "size after an error");
    c.check(!doc.HasMember(lib("a")), "a member after an error");
}

struct Tok
{
    std::string text;
    char kind; // structural character, 's' string, 'k' name, 'n' number, 'l' literal
};
static void tokens(Src& s, std::vector<Tok>& out, JV& v)
{
    switch (v.kind)
    {
        case JV::Obj:
        {
            out.push_back({"{", '{'});
            bool first = true;
            for (auto& m : v.members)
            {
                if (!first)
                {
                    out.push_back({",", ','});
                }
                first = false;
                std::string t;
                write_string(s, t, m.first);
                out.push_back({t, 'k'});
                out.push_back({":", ':'});
                tokens(s, out, m.second);
            }
            out.push_back({"}", '}'});
            break;
        }
        case JV::Arr:
            out.push_back({"[", '['});
            for (size_t i = 0; i < v.items.size(); ++i)
            {
                if (i)
                {
                    out.push_back({",", ','});
                }
                tokens(s, out, v.items[i]);
            }
            out.push_back({"]", ']'});
            break;
        case JV::Str:
        {
            std::string t;
            write_string(s, t, v.s);
            out.push_back({t, 's'});
            break;
        }
        case JV::Int:
            out.push_back({std::to_string(v.i), 'n'});
            break;
        case JV::Float:
            out.push_back({float_text(s), 'n'});
            break;
        case JV::Bool:
            out.push_back({v.b ? "true" : "false", 'l'});
            break;
        default:
            out.push_back({"null", 'l'});
    }
}

static size_t pick_token(Src& s, const std::vector<Tok>& t, const char* kinds)
{
    std::vector<size_t> at;
    for (size_t i = 0; i < t.size(); ++i)
    {
        if (strchr(kinds, t[i].kind))
        {
            at.push_back(i);
        }
    }
    return at.empty() ? t.size() : at[s.below(at.size())];
}

static std::string bad_number(Src& s)
{
    static const char* const shapes[] = {"--1", "+-1", "1.2.3", "1..2", ".5", "-.5", "1.", "-1.", "-", "+", "1e", "1e+", "1E-", "1.e5", "1e5.5", "1-2", "1+1",
        "1e5e5", "-e5", "0x10", "1_000", "1e400", "-1e400", "4e38", "-1e39", "9223372036854775808", "-9223372036854775809",
        "99999999999999999999", "1e99999", "--", "1 2", "Infinity", "NaN", "-Infinity", "1f", "1.5.", "1e1.0", "\xD9\xA1", "1\xD9\xA1", "\xEF\xBC\x91"};
    const size_t n = sizeof shapes / sizeof *shapes;
    const size_t k = s.below(n + 2);
    if (k < n)
    {
        return shapes[k];
    }
    std::string t = s.flip() ? "-" : "";
    t += static_cast<char>('1' + s.below(9));
    if (k == n)
    {
        for (size_t i = 0, m = 19 + s.length(60); i < m; ++i)
        {
            t += static_cast<char>('0' + s.below(10));
        }
        return t;
    }
    return t + "e" + std::to_string(39 + s.below(3000));
}

// A valid document with one planted defect
static std::string planted(Src& s, std::string& why)
{
    JV v = json_object(s, 4, 16);
    std::vector<Tok> t;
    tokens(s, t, v);
    size_t i;
    for (;;)
    {
        switch (s.below(17))
        {
            case 0: // cut behind a token: everything still open is unclosed
                why = "it is cut off";
                t.resize(s.below(t.size()));
                break;
            case 1: // cut within a string
                i = pick_token(s, t, "sk");
                if (i == t.size())
                {
                    continue;
                }
                why = "a string is unclosed";
                t.resize(i + 1);
                t[i].text.pop_back();
                if (s.flip())
                {
                    t.push_back({"}", 'x'});
                }
                break;
            case 2:
                i = pick_token(s, t, ":");
                if (i == t.size())
                {
                    continue;
                }
                why = "a colon is missing";
                t[i].text = s.pick<const char*>({" ", ",", ";", "=", "::", ": :", "\xEF\xBC\x9A"});
                break;
            case 3:
                i = pick_token(s, t, ",");
                if (i == t.size())
                {
                    continue;
                }
                why = "a comma is missing";
                t[i].text = s.pick<const char*>({" ", ";", ",,", ", ,", ":", "\xEF\xBC\x8C"});
                break;
            case 4: // a value is missing
                i = pick_token(s, t, ":,");
                if (i == t.size())
                {
                    continue;
                }
                why = "a value is missing";
                if (i + 1 < t.size() && strchr("snl", t[i + 1].kind))
                {
                    t[i + 1].text = " ";
                    break;
                }
                continue;
            case 5:
                i = pick_token(s, t, "}]");
                if (i == t.size() || t[i - 1].kind == '{' || t[i - 1].kind == '[')
                {
                    continue;
                }
                why = "it has a trailing comma";
                t[i].text = "," + t[i].text;
                break;
            case 6:
                i = pick_token(s, t, "l");
                if (i == t.size())
                {
                    continue;
                }
                why = "a literal is unknown";
                t[i].text = s.pick<const char*>({"nul", "tru", "fals", "nulll", "truee", "True", "NULL", "falsee", "undefined", "t", "n", "f", "x", "tr\xC3\xBC""e", "none",
                    "true1", "nullnull", "true false", "'a'", "//c", "\xC3\xA9"});
                break;
            case 7: // bad escape
                i = pick_token(s, t, "sk");
                if (i == t.size())
                {
                    continue;
                }
                why = "an escape is invalid";
                t[i].text = t[i].text.substr(0, t[i].text.size() - 1);
                t[i].text += s.pick<const char*>({"\\x", "\\a", "\\'", "\\0", "\\U0041", "\\u", "\\u1", "\\u12", "\\u123", "\\u12g4", "\\ug123", "\\u 123", "\\u-123",
                    "\\u+123", "\\u0x1", "\\ud800", "\\ud83d\\n", "\\ud83dx", "\\udc00", "\\ud800\\ud800", "\\ud83d\\u0041", "\\u123 ", "\\ ", "\\\n", "\\\xC3\xA9",
                    "\\v", "\\e", "\\uD83D\\", "\\ud83d\\ude0", "\\ud83d\\ude0g", "\\ud83d\\U", "\\N", "\\B"});
                t[i].text += s.chance(1, 3) ? "abcd\"" : "\"";
                break;
            case 8:
            case 9:
                i = pick_token(s, t, "n");
                if (i == t.size())
                {
                    continue;
                }
                why = "a number is malformed or too large";
                t[i].text = bad_number(s);
                break;
            case 10:
                why = "something follows the document";
                t.push_back({s.pick<const char*>({"x", "}", "{}", ",", "]", "null", "1", "\"a\"", "{", "\\", "}}"}), 'x'});
                if (s.flip())
                {
                    t.push_back({"}", 'x'});
                }
                break;
            case 11:
                why = "something precedes the document";
                t.insert(t.begin(), {s.pick<const char*>({"x", "}", "{", "[", ",", "{}", "1", "\"a\"", ":", "\xEF\xBB\xBF\x41"}), 'x'});
                break;
            case 12: // closing bracket of the other kind
                i = pick_token(s, t, "}]");
                why = "a bracket is of the wrong kind";
                t[i].text = t[i].kind == '}' ? (s.flip() ? "]" : ")") : (s.flip() ? "}" : ">");
                break;
            case 13: // a name is no string
                i = pick_token(s, t, "k");
                if (i == t.size())
                {
                    continue;
                }
                why = "a name is no string";
                t[i].text = s.pick<const char*>({"a", "1", "null", "'a'", "{}", "[]", "", "true", "\"a\" \"b\""});
                break;
            case 14: // one structural token dropped
                i = pick_token(s, t, "{}[]:,");
                why = std::string("a '") + t[i].kind + "' is gone";
                t.erase(t.begin() + static_cast<ptrdiff_t>(i));
                break;
            case 15: // a structural token twice
                i = pick_token(s, t, "{}[]:,");
                why = std::string("a '") + t[i].kind + "' is doubled";
                t.insert(t.begin() + static_cast<ptrdiff_t>(i), t[i]);
                break;
            default:
            {
                why = "its top level is no object";
                const char* const tops[] = {"", " ", "\n\t ", "[]", "[1,2]", "null", "true", "1", "\"a\"", "[{}]", "\"{}\"", "[{},{}]", "{}{}", "}{", "{]", "[}"};
                t.assign(1, {tops[s.below(sizeof tops / sizeof *tops)], 'x'});
            }
        }
        break;
    }
    std::string out;
    blank(s, out);
    for (size_t k = 0; k < t.size(); ++k)
    {
        out += t[k].text;
        blank(s, out);
    }
    return out;
}

// Pieces the parser reacts to, in any order
static std::string soup(Src& s)
{
    static const char* const pieces[] = {"{", "}", "[", "]", ":", ",", "\"", "\"a\"", "\\", "null", "true", "false", "1", "-", "+", ".", "e", "E5", " ", "\n", "\"k\":", "{\"a\":", "\\u", "00e9", "\\u0041", "\xC3\xA9", "\xE2\x80\xA8",
        "9223372036854775807", "1.5", "t", "f", "n", "nul", "\\\"", "/", "0", "\xD9\xA1", "\xF0\x9F\x98\x80", "\\ud83d", "\\ude00", "\t", "\x01"};
    std::string t;
    if (!s.chance(1, 5))
    {
        t = "{";
    }
    for (size_t i = 0, n = s.length(40); i < n; ++i)
    {
        t += s.chance(1, 10) ? utf8(code_point(s)) : pieces[s.below(sizeof pieces / sizeof *pieces)];
    }
    if (!s.chance(1, 5))
    {
        t += "}";
    }
    return t;
}

// A valid text with a few characters changed
static std::string mutated(Src& s)
{
    JV v = json_object(s, 4, 12);
    std::string text;
    write_value(s, text, v);
    Cps cps;
    split_utf8(text, cps);
    static const uint32_t marks[] = {'{', '}', '[', ']', ':', ',', '"', '\\', '-', '+', '.', 'e', '0', '9', ' ', 'u', 'n', 't', 'f', '\n', 0xE9, 0x661, 0x1F600};
    for (size_t i = 0, n = 1 + s.below(4); i < n && !cps.empty(); ++i)
    {
        const size_t at = s.below(cps.size());
        switch (s.below(5))
        {
            case 0:
                cps.erase(cps.begin() + static_cast<ptrdiff_t>(at));
                break;
            case 1:
                cps[at] = marks[s.below(sizeof marks / sizeof *marks)];
                break;
            case 2:
                cps.insert(cps.begin() + static_cast<ptrdiff_t>(at), marks[s.below(sizeof marks / sizeof *marks)]);
                break;
            case 3:
                std::swap(cps[at], cps[s.below(cps.size())]);
                break;
            default:
                cps.resize(at);
        }
    }
    return utf8(cps);
}

// Deep nesting, closed or not
static std::string deep(Src& s)
{
    const size_t n = s.pick<size_t>({600, 1000, 5000, 100000, 513, 511, 512, 30000});
    std::string t = "{\"a\":";
    const bool objects = s.flip();
    for (size_t i = 0; i < n; ++i)
    {
        t += objects ? "{\"b\":" : "[";
    }
    if (s.flip())
    {
        t += "1";
        for (size_t i = 0; i < n; ++i)
        {
            t += objects ? "}" : "]";
        }
    }
    return t + (s.flip() ? "}" : "");
}

static void run(Src& s, Ctx& c)
{
    std::string why, text;
    const size_t way = s.chance(1, 400) ? 3 : s.weighted({5, 3, 3});
    switch (way)
    {
        case 0:
            text = planted(s, why);
            break;
        case 1:
            text = mutated(s);
            break;
        case 2:
            text = soup(s);
            break;
        default:
            text = deep(s);
    }
    c.log << (text.size() > 3000 ? show(text.substr(0, 40)) + " ... (" + std::to_string(text.size()) + " bytes)" : show(text));
    Cps cps;
    c.check(split_utf8(text, cps), "generator: not UTF-8");
    JV value;
    JsonGrammar grammar;
    const auto verdict = way == 3 ? JsonGrammar::Unspecified : grammar.judge(cps, value);
    if (!why.empty())
    {
        c.log << " (" << why << ")";
        if (verdict != JsonGrammar::Invalid)
        {
            throw Discard{}; // the defect cancelled itself out
        }
    }
    JsonDocument doc;
    if (s.flip())
    {
        doc.Parse(lib("{\"a\":1}"));
        c.check(!doc.HasError(), "refuses good text");
    }
    switch (s.below(4))
    {
        case 0:
            doc.Parse(lib(text));
            break;
        case 1:
            doc = JsonDocument(lib(text));
            break;
        case 2:
        {
            std::istringstream in(text);
            in >> doc;
            break;
        }
        default:
            doc = lib(text);
    }
    if (verdict == JsonGrammar::Invalid || (verdict == JsonGrammar::Unspecified && doc.HasError()))
    {
        must_be_error(c, doc, why.empty() ? "it is no JSON" : why.c_str());
    }
    else
    {
        c.check(!doc.HasError(), "refuses valid text");
        c.check(doc.GetType() == JsonClass::Object, "the result is no object");
        if (way != 3)
        {
            c.eq(static_cast<size_t>(doc.Size()), value.members.size(), "number of members");
            for (auto& m : value.members)
            {
                if (verdict == JsonGrammar::Valid)
                {
                    c.check(doc.HasMember(lib(m.first)), "a member is missing");
                    same(c, doc[lib(m.first)], m.second, show(m.first));
                }
            }
        }
    }
    const size_t transfer = s.below(9);
    if (transfer > 0)
    {
        // an error must survive copying and moving the document, whatever the target was before
        const bool error = doc.HasError();
        const auto code = doc.GetError();
        const std::string message = bytes_of(doc.GetErrorString()), content = bytes_of(doc.ToString());
        JsonDocument other;
        switch (s.below(3))
        {
            case 0:
                other.Parse(lib("{\"old\": [1, 2], \"x\": {}}"));
                break;
            case 1:
                other.Parse(lib("{\"old\": [1,, 2]}"));
                break;
            default:
                break;
        }
        const auto state = [&](const JsonDocument& d, const char* what)
        {
            c.eq(d.HasError(), error, (std::string("error of ") + what).c_str());
            c.check(d.GetError() == code, std::string("error code of ") + what);
            c.eq(bytes_of(d.GetErrorString()), message, (std::string("error message of ") + what).c_str());
            c.eq(bytes_of(d.ToString()), content, (std::string("content of ") + what).c_str());
        };
        switch (transfer)
        {
            case 1:
                state(JsonDocument(doc), "a copy");
                break;
            case 2:
                other = doc;
                state(other, "an assigned document");
                break;
            case 3:
                state(JsonDocument(std::move(doc)), "a moved document");
                break;
            case 4:
                other = std::move(doc);
                state(other, "a move-assigned document");
                break;
            case 5:
                state(Caitlyn::Json::MakeDocument(doc), "a made copy");
                break;
            case 6:
                state(Caitlyn::Json::MakeDocument(std::move(doc)), "a made and moved document");
                break;
            case 7:
                std::swap(doc, other);
                state(other, "a swapped document");
                break;
            default:
            {
                JsonDocument& self = doc;
                doc = self;
                state(doc, "a document assigned to itself");
            }
        }
        if (transfer != 3 && transfer != 4 && transfer != 6 && transfer != 7)
        {
            state(doc, "the source of a copy");
        }
        c.label_if(error, "transferred error");
    }
    doc.Parse(lib("{\"good\": [1, \"\\u00e9\"]}"));
    c.check(!doc.HasError() && doc.GetError() == JsonDocument::ErrorType::NoError, "good text afterwards is refused");
    c.check(doc.GetType() == JsonClass::Object && doc.Size() == 1, "the document did not recover");
    c.eq(bytes_of(doc["good"][Caitlyn::SizeType{1}].GetString()), std::string("\xC3\xA9"), "a value after recovering");
    c.label_if(way == 0, "planted defect");
    c.label_if(way == 1 && verdict == JsonGrammar::Invalid, "mutated, invalid");
    c.label_if(way == 1 && verdict == JsonGrammar::Valid, "mutated, still valid");
    c.label_if(way == 2 && verdict == JsonGrammar::Invalid, "soup, invalid");
    c.label_if(way == 2 && verdict == JsonGrammar::Valid, "soup, valid");
    c.label_if(verdict == JsonGrammar::Unspecified, "unspecified");
    c.label_if(way == 3, "deep nesting");
    c.nontrivial = verdict == JsonGrammar::Invalid && text.size() >= 3;
}

static const Config cfg{"J03", run, 0, nullptr, true};
PBT_MAIN(cfg)
