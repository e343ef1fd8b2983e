// J04: a JSON document behaves as an ordered map/list tree under any edits.
#include <memory>
#include "json.h"

using namespace pbt;
using Caitlyn::JsonDocument;
using Caitlyn::SizeType;
using Caitlyn::String;
namespace Json = Caitlyn::Json;

struct Root
{
    std::unique_ptr<JsonDocument> doc; // one of the two
    std::unique_ptr<JData> data;
    JV model;
    bool error = false;
};

// Library value and model of the same place
struct Place
{
    JData* d = nullptr;
    JV* v = nullptr;
    std::string path;
    std::vector<JV*> chain; // the models from the root (not of documents) down to this one
};

static std::string key(Src& s)
{
    static const std::vector<std::string> keys = {"a", "b", "c", "d", "", "\xC3\xA9", "key\n"};
    return keys[s.below(keys.size())];
}

static void verify(Ctx& c, Root& r, const std::string& name)
{
    if (r.data)
    {
        same(c, *r.data, r.model, name);
        return;
    }
    const JsonDocument& d = *r.doc;
    c.eq(d.HasError(), r.error, (name + ": error state").c_str());
    if (d.GetType() != class_of(r.model.kind))
    {
        c.fail(name + ": wrong kind of document");
    }
    const bool object = r.model.kind == JV::Obj;
    c.eq(static_cast<size_t>(d.Size()), object ? r.model.members.size() : static_cast<size_t>(-1), (name + ": size").c_str());
    for (const char* k : {"a", "b", "\xC3\xA9", "nope"})
    {
        const bool has = r.model.find(k) != nullptr;
        c.eq(d.HasMember(String(k)), has, (name + ": HasMember " + show(k)).c_str());
        if (!has)
        {
            c.must_throw([&] { (void)d[String(k)]; }, "constant access to an absent member of a document");
        }
    }
    for (auto& m : r.model.members)
    {
        same(c, const_cast<JData&>(d[lib(m.first)]), m.second, name + "." + show(m.first));
    }
    if (object)
    {
        Cps cps;
        JV printed;
        split_utf8(bytes_of(d.ToString()), cps);
        c.check(JsonGrammar().judge(cps, printed) != JsonGrammar::Invalid, name + ": does not print as JSON");
        for (size_t i = 0; i < r.model.members.size() && i < printed.members.size(); ++i)
        {
            c.eq(printed.members[i].first, r.model.members[i].first, (name + ": member order").c_str());
        }
    }
}

class History
{
public:
    History(Src& s, Ctx& c) : s(s), c(c)
    {
    }
    void run()
    {
        const size_t n = 2 + s.below(3);
        for (size_t i = 0; i < n; ++i)
        {
            roots.emplace_back();
            Root& r = roots.back();
            if (i % 2 == 0)
            {
                r.doc.reset(new JsonDocument());
                r.model = JV(JV::Obj);
            }
            else
            {
                r.data.reset(new JData());
            }
        }
        const size_t steps = 1 + s.length(30);
        for (size_t i = 0; i < steps; ++i)
        {
            step();
            for (size_t k = 0; k < roots.size(); ++k)
            {
                verify(c, roots[k], "root " + std::to_string(k));
            }
        }
        c.label_if(self, "own part copied or moved");
        c.label_if(moves > 0, "moves");
        c.label_if(grown > 0, "index beyond the end");
        c.label_if(replaced > 0, "kind replaced");
        c.nontrivial = edits >= 4 && deepest >= 2;
    }

private:
    // An existing value: a member of a document or anything below, or a free value or anything below
    Place choose()
    {
        Place p;
        const size_t i = s.below(roots.size());
        Root& r = roots[i];
        p.path = "root " + std::to_string(i);
        if (r.doc)
        {
            if (r.model.members.empty())
            {
                const std::string k = key(s);
                p.d = &(*r.doc)[lib(k)];
                p.v = &r.model.at(k);
                r.error = r.error; // indexing does not clear an error
                p.path += "." + show(k) + " (new)";
            }
            else
            {
                auto& m = r.model.members[s.below(r.model.members.size())];
                p.d = &(*r.doc)[lib(m.first)];
                p.v = &m.second;
                p.path += "." + show(m.first);
            }
        }
        else
        {
            p.d = r.data.get();
            p.v = &r.model;
        }
        p.chain.push_back(p.v);
        size_t depth = 0;
        while (s.chance(3, 5))
        {
            if (p.v->kind == JV::Obj && !p.v->members.empty())
            {
                auto& m = p.v->members[s.below(p.v->members.size())];
                p.d = s.flip() ? &(*p.d)[lib(m.first)] : &p.d->At(lib(m.first));
                p.v = &m.second;
                p.path += "." + show(m.first);
            }
            else if (p.v->kind == JV::Arr && !p.v->items.empty())
            {
                const size_t i = s.below(p.v->items.size());
                p.d = s.flip() ? &(*p.d)[static_cast<SizeType>(i)] : &p.d->At(static_cast<SizeType>(i));
                p.v = &p.v->items[i];
                p.path += "[" + std::to_string(i) + "]";
            }
            else
            {
                break;
            }
            p.chain.push_back(p.v);
            ++depth;
        }
        deepest = std::max(deepest, depth + 1);
        return p;
    }
    size_t total()
    {
        size_t n = 0;
        for (auto& r : roots)
        {
            n += r.model.nodes();
        }
        return n;
    }
    static bool above(const Place& a, const Place& b) // a is b or contains b
    {
        return std::find(b.chain.begin(), b.chain.end(), a.v) != b.chain.end();
    }

    void scalar(Place& p)
    {
        replaced += p.v->kind == JV::Arr || p.v->kind == JV::Obj;
        switch (s.below(9))
        {
            case 0:
                *p.d = true;
                *p.v = JV::of_bool(true);
                break;
            case 1:
                *p.d = false;
                *p.v = JV::of_bool(false);
                break;
            case 2:
            {
                const int n = static_cast<int>(s.range(-5, 5));
                *p.d = n;
                *p.v = JV::of_int(n);
                break;
            }
            case 3:
            {
                const int64_t n = json_int(s);
                *p.d = n;
                *p.v = JV::of_int(n);
                break;
            }
            case 4:
            {
                const float f = json_float(s);
                *p.d = f;
                *p.v = JV::of_float(f);
                break;
            }
            case 5:
            {
                const std::string t = json_text(s, 12);
                *p.d = t;
                *p.v = JV::of_str(t);
                break;
            }
            case 6:
            {
                const std::string t = json_text(s, 12);
                *p.d = t.c_str();
                *p.v = JV::of_str(t);
                break;
            }
            case 7:
                *p.d = Json::MakeNull();
                *p.v = JV();
                break;
            default:
            {
                const auto n = static_cast<uint16_t>(s.below(65536));
                *p.d = n;
                *p.v = JV::of_int(n);
            }
        }
        c.log << p.path << " = " << dump(*p.v) << "; ";
    }
    // A value that may refer to an existing place
    JData value(JV& v)
    {
        if (s.flip())
        {
            Place q = choose();
            v = *q.v;
            c.log << "(copy of " << q.path << ") ";
            return *q.d;
        }
        v = json_scalar(s);
        c.log << "(" << dump(v) << ") ";
        switch (v.kind)
        {
            case JV::Null:
                return Json::MakeNull();
            case JV::Bool:
                return Json::MakeBoolean(v.b);
            case JV::Int:
                return Json::MakeIntegral(v.i);
            case JV::Float:
                return Json::MakeFloating(v.f);
            default:
                return Json::MakeString(v.s);
        }
    }

    void step()
    {
        ++edits;
        const bool crowded = total() > 150;
        switch (crowded ? s.below(4) : s.weighted({6, 2, 2, 2, 4, 4, 4, 3, 4, 3, 4, 3, 2, 3, 3, 2, 2, 2}))
        {
            case 0:
            {
                Place p = choose();
                scalar(p);
                break;
            }
            case 1: // remove a member
            {
                Root& r = document();
                const std::string k = !r.model.members.empty() && s.flip() ? r.model.members[s.below(r.model.members.size())].first : key(s);
                c.log << "remove " << show(k) << " of root " << (&r - &roots[0]) << "; ";
                r.doc->RemoveMember(lib(k));
                for (size_t i = 0; i < r.model.members.size(); ++i)
                {
                    if (r.model.members[i].first == k)
                    {
                        r.model.members.erase(r.model.members.begin() + static_cast<ptrdiff_t>(i));
                        break;
                    }
                }
                break;
            }
            case 2: // an empty container
            {
                Place p = choose();
                const bool array = s.flip();
                *p.d = s.flip() ? Json::Make(array ? JsonClass::Array : JsonClass::Object) : array ? Json::MakeArray() : Json::MakeObject();
                *p.v = JV(array ? JV::Arr : JV::Obj);
                c.log << p.path << " = " << dump(*p.v) << "; ";
                break;
            }
            case 3: // constant access
            {
                Place p = choose();
                const JData& k = *p.d;
                c.log << "look at " << p.path << "; ";
                for (const char* name : {"a", "b", "nope"})
                {
                    c.eq(k.HasMember(String(name)), p.v->kind == JV::Obj && p.v->find(name) != nullptr, "HasMember");
                    if (p.v->kind != JV::Obj || !p.v->find(name))
                    {
                        c.must_throw([&] { (void)k.At(String(name)); }, "constant access to an absent member");
                    }
                }
                const size_t n = p.v->kind == JV::Arr ? p.v->items.size() : 0;
                for (size_t i : {n, n + 1, n + 1000})
                {
                    c.must_throw([&] { (void)k.At(static_cast<SizeType>(i)); }, "constant access behind the end");
                }
                if (p.v->kind != JV::Obj)
                {
                    c.must_throw([&] { (void)p.d->GetData(); }, "member list of another kind");
                }
                break;
            }
            case 4: // index by name, then maybe assign
            {
                Place p = choose();
                const std::string k = key(s);
                replaced += p.v->kind != JV::Obj && p.v->kind != JV::Null;
                c.log << p.path << "[" << show(k) << "]; ";
                Place q;
                q.d = s.flip() ? &(*p.d)[lib(k)] : &p.d->At(lib(k));
                q.v = &p.v->at(k);
                q.path = p.path + "." + show(k);
                if (s.flip())
                {
                    scalar(q);
                }
                break;
            }
            case 5: // index by position
            {
                Place p = choose();
                const size_t n = p.v->kind == JV::Arr ? p.v->items.size() : 0;
                const size_t i = s.flip() ? n : s.below(n + 6);
                grown += i > n;
                replaced += p.v->kind != JV::Arr && p.v->kind != JV::Null;
                c.log << p.path << "[" << i << "]; ";
                Place q;
                q.d = s.flip() ? &(*p.d)[static_cast<SizeType>(i)] : &p.d->At(static_cast<SizeType>(i));
                q.v = &p.v->at(i);
                q.path = p.path + "[" + std::to_string(i) + "]";
                if (s.flip())
                {
                    scalar(q);
                }
                break;
            }
            case 6: // append
            {
                Place p = choose();
                replaced += p.v->kind != JV::Arr && p.v->kind != JV::Null;
                auto add = [&](const JV& v)
                {
                    if (p.v->kind != JV::Arr)
                    {
                        *p.v = JV(JV::Arr);
                    }
                    p.v->items.push_back(v);
                };
                c.log << p.path << " append ";
                switch (s.below(4))
                {
                    case 0:
                    {
                        const auto n = static_cast<int>(s.range(0, 9));
                        p.d->Append(n, true, "t", 0.5);
                        add(JV::of_int(n));
                        add(JV::of_bool(true));
                        add(JV::of_str("t"));
                        add(JV::of_float(0.5f));
                        break;
                    }
                    case 1:
                    {
                        JV a, b;
                        const JData x = plain_value(a), y = plain_value(b);
                        p.d->Append(x, y);
                        add(a);
                        add(b);
                        break;
                    }
                    case 2: // its own part, or itself
                    {
                        if (p.v->kind == JV::Arr && !p.v->items.empty())
                        {
                            const size_t i = s.below(p.v->items.size());
                            c.log << "its item " << i << " ";
                            const JV v = p.v->items[i];
                            p.d->Append((*p.d)[static_cast<SizeType>(i)]);
                            add(v);
                        }
                        else
                        {
                            c.log << "itself ";
                            const JV v = *p.v;
                            p.d->Append(*p.d);
                            add(v);
                        }
                        self = true;
                        break;
                    }
                    default:
                    {
                        JV a;
                        const JData x = plain_value(a);
                        p.d->Append(x);
                        add(a);
                    }
                }
                c.log << "; ";
                break;
            }
            case 7: // add a member to a document
            {
                Root& r = document();
                const std::string k = key(s);
                c.log << "add " << show(k) << " to root " << (&r - &roots[0]) << " ";
                if (s.flip() && !r.model.members.empty())
                {
                    // its own part
                    const auto& m = r.model.members[s.below(r.model.members.size())];
                    c.log << "(its own member " << show(m.first) << "); ";
                    const JV v = m.second;
                    r.doc->AddMember(lib(k), (*r.doc)[lib(m.first)]);
                    r.model.at(k) = v;
                    self = true;
                    break;
                }
                JV v;
                const JData x = plain_value(v);
                r.doc->AddMember(lib(k), x);
                r.model.at(k) = v;
                c.log << "; ";
                break;
            }
            case 8: // copy any place over any place
            {
                Place from = choose(), to = choose_again(from);
                c.log << to.path << " = " << from.path << "; ";
                self |= above(from, to) || above(to, from);
                const JV v = *from.v;
                *to.d = *from.d;
                *to.v = v;
                break;
            }
            case 9: // move
            {
                Place from = choose(), to = choose_again(from);
                if (above(from, to) && from.v != to.v)
                {
                    break; // a tree cannot be moved into its own part
                }
                c.log << to.path << " = move " << from.path << "; ";
                self |= above(to, from);
                ++moves;
                JV v = *from.v;
                const bool gone = above(to, from);
                *to.d = std::move(*from.d);
                if (from.v != to.v)
                {
                    if (!gone)
                    {
                        *from.v = JV();
                        scalar(from);
                    }
                    *to.v = v;
                }
                break;
            }
            case 10: // copy a part up over its parent
            case 11: // or move it
            {
                const bool move = s.flip();
                Place p = choose();
                c.log << p.path << " = " << (move ? "move " : "") << "its own part ";
                JData* part = nullptr;
                JV v;
                if (p.v->kind == JV::Obj && !p.v->members.empty())
                {
                    auto& m = p.v->members[s.below(p.v->members.size())];
                    part = &(*p.d)[lib(m.first)];
                    v = m.second;
                    c.log << show(m.first);
                }
                else if (p.v->kind == JV::Arr && !p.v->items.empty())
                {
                    const size_t i = s.below(p.v->items.size());
                    part = &(*p.d)[static_cast<SizeType>(i)];
                    v = p.v->items[i];
                    c.log << i;
                }
                else
                {
                    part = p.d;
                    v = *p.v;
                    c.log << "(all)";
                }
                c.log << "; ";
                self = true;
                if (move)
                {
                    *p.d = std::move(*part);
                }
                else
                {
                    *p.d = *part;
                }
                *p.v = v;
                break;
            }
            case 12: // copies and moves of whole documents and values
            {
                whole();
                break;
            }
            case 13: // arrays made at once
            {
                Place p = choose();
                JV a, b;
                const JData x = plain_value(a), y = plain_value(b);
                *p.d = Json::MakeArray(x, y, 3);
                *p.v = JV(JV::Arr);
                p.v->items = {a, b, JV::of_int(3)};
                c.log << p.path << " = array of these and 3; ";
                break;
            }
            case 14: // swap two places
            {
                Place a = choose(), b = choose_again(a);
                if (above(a, b) || above(b, a))
                {
                    break;
                }
                c.log << "swap " << a.path << " and " << b.path << "; ";
                std::swap(*a.d, *b.d);
                std::swap(*a.v, *b.v);
                ++moves;
                break;
            }
            case 15: // parse over a document
            {
                Root& r = document();
                const bool good = s.flip();
                c.log << "parse over root " << (&r - &roots[0]) << (good ? "; " : " (bad text); ");
                const String text = good ? lib("{\"a\":{\"b\":[1,2]},\"c\":null}") : lib("{\"a\":");
                if (s.flip())
                {
                    r.doc->Parse(text);
                }
                else
                {
                    *r.doc = text;
                }
                r.error = !good;
                r.model = JV();
                if (good)
                {
                    JV& ab = r.model.at("a").at("b");
                    ab.at(size_t{0}) = JV::of_int(1);
                    ab.at(size_t{1}) = JV::of_int(2);
                    r.model.at("c");
                }
                break;
            }
            case 16: // names taken from the tree itself
            {
                Place p = choose();
                if (p.v->kind == JV::Obj && !p.v->members.empty())
                {
                    const size_t i = s.below(p.v->members.size());
                    c.log << p.path << "[its own name " << i << "]; ";
                    JData& d = (*p.d)[p.d->GetData()[i].first];
                    same(c, d, p.v->members[i].second, p.path);
                }
                else if (p.v->kind == JV::Arr && !p.v->items.empty() && p.v->items[0].kind == JV::Obj && !p.v->items[0].members.empty())
                {
                    c.log << p.path << "[a name in its first item]; ";
                    const std::string k = p.v->items[0].members[0].first;
                    (void)(*p.d)[(*p.d)[SizeType{0}].GetData()[0].first];
                    *p.v = JV(JV::Obj);
                    p.v->at(k);
                    self = true;
                }
                break;
            }
            default: // a text assigned from the tree itself
            {
                Place from = choose(), to = choose_again(from);
                if (from.v->kind == JV::Str)
                {
                    c.log << to.path << " = text of " << from.path << "; ";
                    const JV v = *from.v;
                    *to.d = from.d->GetString().str();
                    *to.v = v;
                }
                else
                {
                    scalar(from);
                }
            }
        }
    }

    // A second place, not disturbed by choosing (choosing may create a first member only in an empty document)
    Place choose_again(Place& first)
    {
        std::vector<size_t> sizes;
        for (auto& r : roots)
        {
            sizes.push_back(r.model.members.size());
        }
        Place q = choose();
        (void)first;
        (void)sizes;
        return q;
    }
    JData plain_value(JV& v)
    {
        return value(v);
    }
    Root& document()
    {
        std::vector<size_t> at;
        for (size_t i = 0; i < roots.size(); ++i)
        {
            if (roots[i].doc)
            {
                at.push_back(i);
            }
        }
        return roots[at[s.below(at.size())]];
    }
    void whole()
    {
        const size_t i = s.below(roots.size()), j = s.below(roots.size());
        Root &a = roots[i], &b = roots[j];
        if (!a.doc != !b.doc)
        {
            return;
        }
        const size_t way = s.below(6);
        c.log << "root " << j << " = " << (way == 1 ? "move " : way == 2 ? "copy-constructed " : way == 3 ? "move-constructed " : way == 4 ? "made from " : way == 5 ? "round trip of " : "") << "root " << i
              << "; ";
        if (a.doc)
        {
            switch (way)
            {
                case 0:
                    *b.doc = *a.doc;
                    break;
                case 1:
                    *b.doc = std::move(*a.doc);
                    break;
                case 2:
                    b.doc.reset(new JsonDocument(*a.doc));
                    break;
                case 3:
                {
                    std::unique_ptr<JsonDocument> n(new JsonDocument(std::move(*a.doc)));
                    b.doc = std::move(n);
                    break;
                }
                case 4:
                    b.doc.reset(new JsonDocument(Json::MakeDocument(*a.doc)));
                    break;
                default:
                {
                    JsonDocument t(*a.doc);
                    JsonDocument u(std::move(t));
                    t = u;
                    *b.doc = std::move(t);
                }
            }
            if (i != j || way == 2 || way == 4 || way == 5)
            {
                b.model = i == j ? b.model : a.model;
                b.error = a.error;
            }
            if ((way == 1 || way == 3) && i != j)
            {
                ++moves;
                *a.doc = JsonDocument();
                a.model = JV(JV::Obj);
                a.error = false;
            }
            else if (way == 3)
            {
                // the new document replaced the moved-from one
            }
        }
        else
        {
            switch (way)
            {
                case 0:
                    *b.data = *a.data;
                    break;
                case 1:
                    *b.data = std::move(*a.data);
                    break;
                case 2:
                    b.data.reset(new JData(*a.data));
                    break;
                case 3:
                {
                    std::unique_ptr<JData> n(new JData(std::move(*a.data)));
                    b.data = std::move(n);
                    break;
                }
                case 4:
                {
                    JData t = *a.data;
                    std::unique_ptr<JData> n(new JData(t));
                    b.data = std::move(n);
                    break;
                }
                default:
                {
                    JData t(*a.data);
                    JData u(std::move(t));
                    t = u;
                    *b.data = std::move(t);
                }
            }
            if (i != j)
            {
                b.model = a.model;
            }
            if ((way == 1 || way == 3) && i != j)
            {
                ++moves;
                *a.data = 0;
                a.model = JV::of_int(0);
            }
        }
    }

    Src& s;
    Ctx& c;
    std::vector<Root> roots;
    size_t edits = 0, moves = 0, grown = 0, replaced = 0, deepest = 0;
    bool self = false;
};

static void run(Src& s, Ctx& c)
{
    History h(s, c);
    h.run();
}

static const Config cfg{"J04", run, 0, nullptr, true};
PBT_MAIN(cfg)
