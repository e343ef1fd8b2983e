// U03: keys and values of a map are returned completely and in map order.
#include <map>
#include <memory>
#include <unordered_map>
#include <Caitlyn/Collections>
#include <Caitlyn/String>
#include "gen.h"

using namespace pbt;
using Caitlyn::GetMapKeys;
using Caitlyn::GetMapValues;
using Caitlyn::String;

// One way of giving a value and of showing it, per type
static void draw(Src& s, int& v)
{
    v = static_cast<int>(s.chance(1, 8) ? s.range(-2000000000, 2000000000) : s.range(-4, 12));
}
static void draw(Src& s, std::string& v)
{
    v = utf8_text(s, 20);
}
static void draw(Src& s, String& v)
{
    v = String(utf8_text(s, 6));
}
static void draw(Src& s, bool& v)
{
    v = s.flip();
}
static void draw(Src& s, double& v)
{
    v = static_cast<double>(s.range(-8, 8)) / 4;
}
template <typename T>
static void draw(Src& s, std::vector<T>& v)
{
    v.resize(s.below(4));
    for (auto& x : v)
    {
        draw(s, x);
    }
}
static void draw(Src& s, std::shared_ptr<int>& v)
{
    v = s.flip() ? std::make_shared<int>(static_cast<int>(s.below(5))) : nullptr;
}

// A value whose copying asks for the keys and values of another map
struct Asking
{
    Asking() = default;
    Asking(const Asking& o) : v(o.v)
    {
        ask();
    }
    Asking& operator=(const Asking& o) = default;
    bool operator==(const Asking& o) const
    {
        return v == o.v;
    }
    bool operator<(const Asking& o) const
    {
        return v < o.v;
    }
    static void ask()
    {
        static bool busy = false;
        if (enabled && !busy)
        {
            busy = true;
            std::map<Asking, Asking> other;
            for (int i = 0; i < 2; ++i)
            {
                Asking a;
                a.v = -100 - i;
                other.insert({a, a});
            }
            disturbed = disturbed || GetMapKeys(other).size() != 2 || GetMapValues(other).size() != 2;
            busy = false;
        }
    }
    int v = 0;
    static bool enabled, disturbed;
};
bool Asking::enabled = false, Asking::disturbed = false;
static void draw(Src& s, Asking& v)
{
    draw(s, v.v);
}

template <typename M>
static void rebuild(M& m, const typename M::key_type& k, const typename M::mapped_type& v)
{
    m.insert({k, v});
}

template <typename M>
static void one(Src& s, Ctx& c, const char* type)
{
    using K = typename M::key_type;
    using V = typename M::mapped_type;
    M m;
    const size_t n = s.length(60);
    for (size_t i = 0; i < n; ++i)
    {
        K k{};
        V v{};
        draw(s, k);
        draw(s, v);
        rebuild(m, k, v);
    }
    c.log << type << " with " << m.size() << " entries";
    std::vector<K> keys;
    std::vector<V> values;
    for (auto& e : m)
    {
        keys.push_back(e.first);
        values.push_back(e.second);
    }
    const M before(m);
    std::vector<K> got_keys;
    std::vector<V> got_values;
    // copying an element may ask for the keys and values of another map of the same type
    Asking::disturbed = false;
    Asking::enabled = s.flip();
    struct Quiet
    {
        ~Quiet()
        {
            Asking::enabled = false;
        }
    } quiet;
    switch (s.below(3))
    {
        case 0:
            got_keys = GetMapKeys(m);
            got_values = GetMapValues(m);
            break;
        case 1:
        {
            const M& k = m;
            got_keys = GetMapKeys(k);
            got_values = GetMapValues(k);
            break;
        }
        default:
        {
            // from temporaries; iteration order is that of the temporary itself
            M a(m), b(m);
            keys.clear();
            values.clear();
            for (auto& e : a)
            {
                keys.push_back(e.first);
            }
            for (auto& e : b)
            {
                values.push_back(e.second);
            }
            got_keys = GetMapKeys(std::move(a));
            got_values = GetMapValues(std::move(b));
        }
    }
    Asking::enabled = false;
    c.check(!Asking::disturbed, "keys and values of a map are wrong when asked for while others are being copied");
    c.eq(got_keys.size(), m.size(), "number of keys");
    c.eq(got_values.size(), m.size(), "number of values");
    c.check(got_keys == keys, "the keys are not those of the map in its order");
    c.check(got_values == values, "the values are not those of the map in its order");
    c.check(m == before, "the map changed");
    // the lists are independent of the map
    if (!m.empty())
    {
        for (auto& e : m)
        {
            draw(s, e.second);
        }
        m.erase(m.begin());
        c.check(got_keys == keys && got_values == values, "the lists changed with the map");
        m.clear();
        c.check(got_keys == keys && got_values == values, "the lists changed with the map");
        M again(before);
        if (!got_values.empty())
        {
            got_keys.pop_back();
            got_values.pop_back();
        }
        c.check(again == before, "the map changed with the lists");
    }
    c.label_if(keys.empty(), "empty map");
    c.label(type);
    c.nontrivial = keys.size() >= 2;
}

// Maps with thousands of entries
template <typename M>
static void many(Ctx& c, size_t n, size_t step, const char* type)
{
    using K = typename M::key_type;
    using V = typename M::mapped_type;
    M m;
    for (size_t i = 0; i < n; ++i)
    {
        m.emplace(static_cast<K>(i * step % (2 * n + 1)), static_cast<V>(i));
    }
    c.log << type << " with " << m.size() << " entries, step " << step;
    const std::vector<K> keys = GetMapKeys(m);
    const std::vector<V> values = GetMapValues(m);
    c.eq(keys.size(), m.size(), "number of keys");
    c.eq(values.size(), m.size(), "number of values");
    size_t i = 0;
    for (auto& e : m)
    {
        c.check(keys[i] == e.first && values[i] == e.second, "entry " + std::to_string(i) + " is not that of the map");
        ++i;
    }
    c.label("many entries");
    c.nontrivial = true;
}

static void run(Src& s, Ctx& c)
{
    if (const size_t more = surplus(s))
    {
        const size_t step = 1 + s.below(9);
        return s.flip() ? many<std::map<long, int>>(c, more, step, "map<long, int>") : many<std::unordered_multimap<int, double>>(c, more, step, "unordered_multimap<int, double>");
    }
    switch (s.below(10))
    {
        case 0:
            return one<std::map<int, std::string>>(s, c, "map<int, string>");
        case 1:
            return one<std::map<std::string, int>>(s, c, "map<string, int>");
        case 2:
            return one<std::unordered_map<int, std::string>>(s, c, "unordered_map<int, string>");
        case 3:
            return one<std::map<String, String>>(s, c, "map<String, String>");
        case 4:
            return one<std::multimap<int, double>>(s, c, "multimap<int, double>");
        case 5:
            return one<std::unordered_multimap<int, int>>(s, c, "unordered_multimap<int, int>");
        case 6:
            return one<std::map<double, std::vector<std::string>>>(s, c, "map<double, vector<string>>");
        case 7:
            return one<std::map<int, std::shared_ptr<int>, std::greater<int>>>(s, c, "map<int, shared_ptr, greater>");
        case 8:
            return one<std::map<Asking, Asking>>(s, c, "map whose elements ask for other keys and values");
        default:
            return one<std::map<std::vector<int>, bool>>(s, c, "map<vector<int>, bool>");
    }
}

static const Config cfg{"U03", run, 0, nullptr, true};
PBT_MAIN(cfg)
