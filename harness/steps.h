// Library operations as steps of a script: what several threads do at once (C01) and what runs out of memory (X01).
#ifndef STEPS_H_
#define STEPS_H_

#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include <vector>

#include <Caitlyn/Collections>
#include <Caitlyn/Error>
#include <Caitlyn/File>
#include <Caitlyn/Memory>
#include <Caitlyn/Numeric>
#include <Caitlyn/Serializing>
#include <Caitlyn/String>
#include <Caitlyn/Utility>

#include "gen.h"

using namespace pbt;
using namespace Caitlyn;
using JsonData = JsonDocument::DataType;

struct Pool
{
    std::vector<std::string> texts, numbers, documents;
    std::vector<String> strings;
    std::vector<BigInteger> integers;
    std::vector<BigFloat> floats, roots;
    JsonData data;
    std::vector<JsonDocument> parsed;
    StringBuilder builder;
    std::vector<Expected<String, String>> results;
    std::vector<Expected<BigInteger, int>> numeric;
    SharedPtr<String> owner;
    std::map<String, int> map;
    std::string file;

    Pool(const std::vector<std::string>& t, const std::vector<std::string>& n, const std::vector<std::string>& d,
           const std::string& f)
        : texts(t), numbers(n), documents(d), data(Json::MakeObject()), owner(new String(t[0])), file(f)
    {
        for (auto& x : texts)
        {
            strings.emplace_back(x);
            builder.Append(String(x));
            data[String(x)] = JsonData(x);
            results.emplace_back(strings.size() % 2 ? Expected<String, String>(String(x)) : Expected<String, String>(MakeError(String(x))));
            map[String(x)] += 1 + static_cast<int>(strings.size());
        }
        JsonData list = Json::MakeArray();
        for (auto& x : numbers)
        {
            integers.emplace_back(String(x));
            floats.emplace_back(String(x.substr(0, x.size() > 6 ? 6 : x.size()) + "." + x.substr(x.size() - 1) + "25"));
            roots.emplace_back(String(x.substr(x.size() - 1) + ".5"));
            list.Append(JsonData(static_cast<long long>(x.size())));
            numeric.emplace_back(integers.back());
        }
        numeric.emplace_back(MakeError(static_cast<int>(numbers.size())));
        data[String("list")] = list;
        for (auto& x : documents)
        {
            parsed.emplace_back(String(x));
        }
    }
};

struct Own
{
    String text;
    StringBuilder builder;
    JsonData data = Json::MakeObject();
    BigInteger number{String("7")};
    Expected<String, String> result{MakeError(String("none"))};
    SharedPtr<String> owner{new String("owned")};
    WeakPtr<String> weak;
    UniquePtr<String> unique{new String("owned")};
    JsonDocument document;
    BigFloat decimal{String("0.5")};
    std::string file;
};

struct Op
{
    size_t what, a, b, n;
};

static std::string txt(bool v)
{
    return v ? "1" : "0";
}
static std::string txt(size_t v)
{
    return std::to_string(v);
}

using Step = std::string (*)(const Pool&, Own&, const Op&);
struct Named
{
    const char* name;
    bool shared;
    Step step;
};

template <typename T>
static const T& pick(const std::vector<T>& v, size_t i)
{
    return v[i % v.size()];
}

static const Named steps[] = {
    {"bytes of a shared string", true, [](const Pool& s, Own&, const Op& o) { return pick(s.strings, o.a).str() + txt(pick(s.strings, o.a).ByteCount()); }},
    {"compare shared strings", true,
     [](const Pool& s, Own&, const Op& o) {
         const String &x = pick(s.strings, o.a), &y = pick(s.strings, o.b);
         return txt(x < y) + txt(x > y) + txt(x <= y) + txt(x >= y) + txt(x == y) + txt(x != y) + txt(x == pick(s.texts, o.b).c_str());
     }},
    {"search a shared string", true,
     [](const Pool& s, Own&, const Op& o) {
         const String& x = pick(s.strings, o.a);
         const String needle = x.Substring(x.size() / 2, 2);
         if (needle.IsEmpty())
         {
             return std::string("-");
         }
         return txt(x.Find(needle)) + " " + txt(x.ReverseFind(needle)) + txt(x.Contains(needle)) + txt(x.StartsWith(needle)) + txt(x.EndsWith(needle));
     }},
    {"part of a shared string", true, [](const Pool& s, Own&, const Op& o) { return pick(s.strings, o.a).Substring(0, o.n).str(); }},
    {"cases of a shared string", true, [](const Pool& s, Own&, const Op& o) { return pick(s.strings, o.a).ToUppercase().str() + pick(s.strings, o.b).ToLowercase().str(); }},
    {"characters of a shared string", true,
     [](const Pool& s, Own&, const Op& o) {
         std::string out;
         for (const Char& c : pick(s.strings, o.a))
         {
             out += std::to_string(c.GetCodePoint()) + c.str() + txt(c.size());
             out += txt(IsDigit(c.GetCodePoint())) + txt(IsSpace(c.GetCodePoint())) + txt(IsUppercase(c.GetCodePoint())) + txt(IsLowercase(c.GetCodePoint()));
         }
         return out;
     }},
    {"join shared strings", true, [](const Pool& s, Own&, const Op& o) { return (pick(s.strings, o.a) + pick(s.strings, o.b)).str(); }},
    {"print a shared string", true,
     [](const Pool& s, Own&, const Op& o) {
         std::ostringstream out;
         out << pick(s.strings, o.a);
         return out.str();
     }},
    {"copy a shared string and change the copy", true,
     [](const Pool& s, Own& w, const Op& o) {
         w.text = pick(s.strings, o.a);
         w.text.PushBack(Char("x"));
         w.text.Insert(0, pick(s.strings, o.b));
         w.text[0] = Char("y");
         return w.text.str();
     }},
    {"decode a text", false, [](const Pool& s, Own& w, const Op& o) { w.text = String(pick(s.texts, o.a)); return txt(w.text.size()) + w.text.str(); }},
    {"decode a cut text", false,
     [](const Pool& s, Own&, const Op& o) {
         const std::string& t = pick(s.texts, o.a);
         return String(t.substr(0, t.size() - (t.size() > o.n ? o.n : 0)).c_str()).str();
     }},
    {"decode characters", false, [](const Pool&, Own&, const Op& o) { Char c; c = static_cast<CodePoint>(0x41 + o.n * 977); return c.str() + std::to_string(c.GetCodePoint()); }},
    {"grow an own string", false,
     [](const Pool& s, Own& w, const Op& o) {
         w.text.Append(pick(s.texts, o.a).c_str());
         if (w.text.size() > 200)
         {
             w.text.Clear();
         }
         return w.text.str();
     }},
    {"format", true,
     [](const Pool& s, Own& w, const Op& o) {
         return String::Format(String("{} {{{1}}} {0:*>9} {2:.3f} {3:^6}"), static_cast<int>(o.a * 37), pick(s.strings, o.b), 0.5 * static_cast<double>(o.n), o.n % 2 == 0).str() + String::Format(String("<{:-^12s}>"), w.text).str();
     }},
    {"format a bad template", false, [](const Pool& s, Own&, const Op& o) { return String::Format(String(pick(s.texts, o.a) + "{9}{"), 1).str(); }},
    {"escape", true, [](const Pool& s, Own&, const Op& o) { return EscapeString(pick(s.strings, o.a)).str() + txt(IsNumber(pick(s.strings, o.b))); }},
    {"text utilities", false,
     [](const Pool& s, Own&, const Op& o) {
         std::string out = txt(Split(pick(s.texts, o.a), 'a').size()) + Repeat(pick(s.texts, o.b), o.n % 4);
         return out + txt(kmp("ab", pick(s.texts, o.a))) + txt(kmp(pick(s.texts, o.b) + "b", pick(s.texts, o.a) + pick(s.texts, o.b) + "b"));
     }},
    {"read the shared builder", true, [](const Pool& s, Own&, const Op&) { return s.builder.str().str(); }},
    {"build", true,
     [](const Pool& s, Own& w, const Op& o) {
         if (o.n % 5 == 0)
         {
             StringBuilder copy = s.builder;
             copy.Append(pick(s.strings, o.a));
             return copy.str().str();
         }
         w.builder.Append(pick(s.strings, o.a));
         w.builder.AppendLine(String("{}-{}"), o.n, pick(s.strings, o.b));
         return w.builder.str().str();
     }},
    {"print the shared JSON value", true, [](const Pool& s, Own&, const Op& o) { return s.data.ToString(o.n % 2 == 0, o.n % 5).str(); }},
    {"print a shared document", true, [](const Pool& s, Own&, const Op& o) { return pick(s.parsed, o.a).ToString(o.n % 2 == 0, o.n % 5).str() + pick(s.parsed, o.a).GetErrorString().str(); }},
    {"look into the shared JSON value", true,
     [](const Pool& s, Own&, const Op& o) {
         const String& key = pick(s.strings, o.a);
         std::string out = txt(s.data.Size()) + txt(s.data.HasMember(key)) + s.data.At(key).GetString().str() + txt(s.data.IsObject());
         const JsonData& list = s.data.At(String("list"));
         return out + txt(list.Size()) + std::to_string(list.At(o.b % list.Size()).GetIntegral());
     }},
    {"look into a shared document", true, [](const Pool& s, Own&, const Op& o) { const JsonDocument& d = pick(s.parsed, o.a); return txt(d.HasError()) + txt(d.Size()) + txt(d.HasMember(String("a"))) + d[String("a")].ToString().str(); }},
    {"copy the shared JSON value and change the copy", true,
     [](const Pool& s, Own& w, const Op& o) {
         w.data = s.data;
         w.data[pick(s.strings, o.a)] = JsonData(static_cast<long long>(o.n));
         w.data[String("list")].Append(JsonData(pick(s.texts, o.b)));
         w.data[String("new")] = s.data;
         return w.data.ToString(true).str();
     }},
    {"copy a shared document and change the copy", true,
     [](const Pool& s, Own&, const Op& o) {
         JsonDocument d = pick(s.parsed, o.a);
         d.AddMember(pick(s.strings, o.b), JsonData(o.n % 2 == 0));
         d.RemoveMember(String("a"));
         return d.ToString(true).str();
     }},
    {"parse", false,
     [](const Pool& s, Own& w, const Op& o) {
         const JsonDocument d{String(pick(s.documents, o.a))};
         if (!d.HasError() && d.HasMember(String("a")))
         {
             w.data = Json::MakeObject();
             w.data[String("from")] = d[String("a")];
         }
         return d.GetErrorString().str() + d.ToString().str() + w.data.ToString(true).str();
     }},
    {"calculate with shared integers", true,
     [](const Pool& s, Own& w, const Op& o) {
         const BigInteger &x = pick(s.integers, o.a), &y = pick(s.integers, o.b);
         w.number = x * y + x - y;
         return w.number.ToString().str() + " " + (x / y).ToString().str() + " " + (x % y).ToString().str() + txt(x < y) + txt(x == y) + txt(x.Size());
     }},
    {"powers and roots of shared integers", true, [](const Pool& s, Own&, const Op& o) { return pick(s.integers, o.a).Pow(static_cast<int>(o.n % 5)).ToString().str() + " " + (pick(s.integers, o.b).Abs() % BigInteger(String("99991"))).Sqrt().ToString().str(); }},
    {"calculate with shared decimals", true,
     [](const Pool& s, Own&, const Op& o) {
         const BigFloat &x = pick(s.floats, o.a), &y = pick(s.floats, o.b);
         return (x + y).ToString().str() + " " + (x - y).ToString().str() + " " + (x * y).ToString().str() + " " + (x / y).ToString().str() + txt(x < y);
     }},
    {"powers and roots of shared decimals", true, [](const Pool& s, Own&, const Op& o) { return (o.n == 12 ? pick(s.roots, o.a).Sqrt() : pick(s.floats, o.a).Pow(static_cast<int>(o.n % 4))).ToString().str() + txt(pick(s.floats, o.a).Size()); }},
    {"read numbers", false, [](const Pool& s, Own& w, const Op& o) { w.number = BigInteger(String(pick(s.numbers, o.a))); return w.number.ToString().str() + BigInteger(String(pick(s.texts, o.b))).ToString().str(); }},
    {"ask a shared result", true,
     [](const Pool& s, Own&, const Op& o) {
         const auto& r = pick(s.results, o.a);
         std::string out = txt(r.HasValue()) + txt(static_cast<bool>(r)) + r.UnwrapOr(String("or")).str() + r.UnwrapOrDefault().str();
         return out + (r.HasValue() ? r.Get().str() : r.GetError().str()) + pick(s.numeric, o.b).UnwrapOrDefault().ToString().str();
     }},
    {"expect from a shared result", true, [](const Pool& s, Own&, const Op& o) { return pick(s.results, o.a).Expect(String("nothing there")).str(); }},
    {"copy a shared result", true,
     [](const Pool& s, Own& w, const Op& o) {
         w.result = pick(s.results, o.a);
         const Expected<String, String> again = w.result;
         return (again.HasValue() ? again.Get() : again.GetError()).str();
     }},
    {"read through the shared owner", true, [](const Pool& s, Own&, const Op&) { return s.owner->str() + txt((*s.owner).size()) + txt(s.owner != nullptr); }},
    {"copy the shared owner", true,
     [](const Pool& s, Own&, const Op&) {
         const SharedPtr<String> mine = s.owner;
         const WeakPtr<String> weak = mine;
         return weak.lock()->str() + txt(weak.expired());
     }},
    {"keys and values of the shared map", true,
     [](const Pool& s, Own&, const Op&) {
         std::string out;
         for (auto& k : GetMapKeys(s.map))
         {
             out += k.str() + ",";
         }
         for (int v : GetMapValues(s.map))
         {
             out += std::to_string(v) + ",";
         }
         return out;
     }},
    {"random numbers", false,
     [](const Pool&, Own&, const Op& o) {
         const int hi = 1 + static_cast<int>(o.n);
         const int v = Random<int>(-3, hi);
         const double d = Random<double>(0.0, 2.0);
         return txt(v >= -3 && v <= hi && d >= 0.0 && d <= 2.0 && RandomBoolean(1.0) && !RandomBoolean(0.0));
     }},
    {"read the shared file", true,
     [](const Pool& s, Own&, const Op& o) {
         File f{String(s.file)};
         std::string out = o.n % 2 ? f.ReadLine().str() : f.Read().str();
         f.Close();
         return out;
     }},
    {"write an own file", false,
     [](const Pool& s, Own& w, const Op& o) {
         {
             File f{String(w.file)};
             f.Write(pick(s.strings, o.a));
             f.AppendLine(String("{}+{}"), o.n, o.b);
             f.Close();
         }
         std::ifstream in(w.file, std::ios::binary);
         std::ostringstream all;
         all << in.rdbuf();
         return all.str();
     }},
    {"string surgery", false,
     [](const Pool& s, Own& w, const Op& o) {
         w.text.Insert(w.text.size() / 2, pick(s.texts, o.a).c_str());
         w.text.Insert(0, o.n, Char("-"));
         w.text += pick(s.strings, o.b);
         w.text.Append(o.n % 4, pick(s.texts, o.b).c_str());
         w.text.Append(o.n, Char("z"));
         const String all(w.text.begin(), w.text.end()), count(o.n, 'c'), chars(w.text.data());
         String moved = std::move(w.text);
         w.text = moved.Substring(0, 40);
         return w.text.str() + txt(all == chars) + count.str() + txt(moved.NotEmpty());
     }},
    {"read strings from a stream", false,
     [](const Pool& s, Own& w, const Op& o) {
         std::istringstream in(pick(s.texts, o.a) + "\n" + pick(s.texts, o.b));
         String line;
         while (in >> line)
         {
             w.text = line;
         }
         return w.text.str();
     }},
    {"texts and builders", false,
     [](const Pool& s, Own& w, const Op& o) {
         StringBuilder b = MakeText(pick(s.strings, o.a));
         b.Append(String("{:>8}"), pick(s.strings, o.b));
         b.AppendLine(pick(s.strings, o.a));
         StringBuilder moved = std::move(b);
         moved.Append(w.text);
         w.text = moved.str().Substring(0, 60);
         return w.text.str();
     }},
    {"make and pass on owners", false,
     [](const Pool& s, Own& w, const Op& o) {
         w.owner = SharedPtr<String>(new String(pick(s.strings, o.a)));
         SharedPtr<String> second = w.owner;
         second = new String(pick(s.strings, o.b));
         w.weak = WeakPtr<String>(second);
         SharedPtr<String> third(std::move(second));
         w.owner.Reset(new String("reset"));
         w.owner = third;
         w.unique = UniquePtr<String>(new String(pick(s.strings, o.b)));
         w.unique.Reset(new String(pick(s.strings, o.a)));
         return w.owner->str() + w.unique->str() + w.weak.lock()->str() + txt(w.weak.expired());
     }},
    {"owners in a list", false,
     [](const Pool& s, Own& w, const Op& o) {
         std::vector<SharedPtr<String>> list;
         for (size_t i = 0; i <= o.n; ++i)
         {
             list.emplace_back(i % 2 ? SharedPtr<String>(new String(pick(s.strings, i))) : w.owner);
         }
         w.weak = list.back();
         w.owner = list[list.size() / 2];
         list.clear();
         return txt(w.weak.expired()) + txt(w.owner != nullptr);
     }},
    {"change a JSON value", false,
     [](const Pool& s, Own& w, const Op& o) {
         w.data[String("list")][o.n % 4] = pick(s.texts, o.a);
         w.data[String("list")].Append(static_cast<int>(o.n), pick(s.texts, o.b), 2.5, true);
         w.data[String("deep")][pick(s.strings, o.a)][pick(s.strings, o.b)] = static_cast<int>(o.b);
         if (o.n == 11)
         {
             w.data[String("deep")] = w.data;
         }
         if (o.n % 4 == 3)
         {
             w.data = w.data[String("deep")];
         }
         if (w.data.ToString().size() > 400)
         {
             w.data = Json::MakeObject();
         }
         return w.data.ToString(true).str();
     }},
    {"turn JSON values into others", false,
     [](const Pool& s, Own& w, const Op& o) {
         JsonData& v = w.data[String("list")];
         switch (o.n % 6)
         {
             case 0: v = pick(s.texts, o.a); break;
             case 1: v = static_cast<int>(o.b); break;
             case 2: v[pick(s.strings, o.a)] = o.b % 2 == 0; break;
             case 3: v[o.b] = Json::MakeNull(); break;
             case 4: v = Json::MakeArray(1, 2.5, pick(s.texts, o.a)); break;
             default: v.Append(pick(s.texts, o.a)); break;
         }
         return w.data.ToString().str();
     }},
    {"change a document", false,
     [](const Pool& s, Own& w, const Op& o) {
         w.document = String(pick(s.documents, o.a));
         w.document[String("a")] = pick(s.texts, o.b);
         w.document.AddMember(pick(s.strings, o.b), w.data);
         JsonDocument other = std::move(w.document);
         w.document = other;
         w.document.RemoveMember(pick(s.strings, o.n));
         return w.document.ToString().str() + other.GetErrorString().str();
     }},
    {"work through a result", false,
     [](const Pool& s, Own& w, const Op& o) {
         w.result = o.n % 3 == 0 ? Expected<String, String>(MakeError(pick(s.strings, o.a))) : Expected<String, String>(pick(s.strings, o.a));
         const auto mapped = w.result.Map([](const String& t) { return t + String("!"); }).MapError([](const String& t) { return t.str(); });
         const auto then = w.result.AndThen([&](const String& t) { return o.b % 2 ? Expected<String, String>(t) : Expected<String, String>(MakeError(t)); });
         const auto other = then.OrElse([](const String& t) { return Expected<String, String>(t + String("?")); });
         Expected<String, String> moved = std::move(w.result);
         w.result = other.Filter([&](const String& t) { return t.size() > o.n; });
         return mapped.UnwrapOr(String("none")).str() + other.UnwrapOr(String("none")).str() + (w.result.HasValue() ? w.result.Get().str() : w.result.GetError().str()) + txt(moved.HasValue());
     }},
    {"number after number", false,
     [](const Pool& s, Own& w, const Op& o) {
         w.number = pick(s.integers, o.a);
         w.number = w.number.Multiply(pick(s.integers, o.b)).Add(BigInteger(static_cast<int64_t>(o.n)));
         w.number = w.number / (w.number.Abs() + BigInteger(String("1")));
         w.decimal = pick(s.floats, o.a) - BigFloat(0.25);
         w.decimal = w.decimal.Multiply(pick(s.floats, o.b)).Abs();
         std::ostringstream out;
         out << w.number.ToString() << w.decimal.ToString();
         return out.str();
     }},
    {"build a map", false,
     [](const Pool& s, Own&, const Op& o) {
         std::map<String, String> m;
         for (size_t i = 0; i < s.strings.size(); ++i)
         {
             m[pick(s.strings, o.a + i)] = pick(s.strings, o.b + i);
         }
         std::string out;
         for (auto& k : GetMapKeys(m))
         {
             out += k.str();
         }
         for (auto& v : GetMapValues(m))
         {
             out += v.str();
         }
         return out;
     }},
};
constexpr size_t Steps = sizeof steps / sizeof *steps;

static std::string number(Src& s)
{
    std::string v = s.below(3) == 2 ? "-" : "";
    v += static_cast<char>('1' + s.below(9));
    for (size_t n = s.length(28); n > 0; --n)
    {
        v += static_cast<char>('0' + s.below(10));
    }
    return v;
}

static std::string document(Src& s, const std::vector<std::string>& texts)
{
    static const char* const plain[] = {"1", "-70000000000", "2.5e3", "true", "null", "\"q\\n\\u00e9\"", "[1,[2,{}],\"x\"]", "{\"a\":{\"b\":[]}}", "[", "\"open", "tru", "1e", "{1}", ""};
    std::string v = "{";
    const size_t members = s.length(5);
    for (size_t i = 0; i < members; ++i)
    {
        v += i ? ", " : "";
        std::string quoted = "\"";
        for (char ch : texts[s.below(texts.size())])
        {
            quoted += ch == '"' || ch == '\\' || static_cast<unsigned char>(ch) < 0x20 ? std::string("_") : std::string(1, ch);
        }
        v += (i == 0 ? "\"a\"" : quoted + "\"") + ":" + plain[s.weighted({8, 8, 8, 8, 8, 8, 8, 8, 1, 1, 1, 1, 1, 1})];
    }
    return v + (s.below(12) == 11 ? "" : "}");
}

#endif // STEPS_H_
