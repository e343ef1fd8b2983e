// S02: any history of string operations shows what the same operations on plain lists of code points show.
#include <Caitlyn/String>
#include "gen.h"

using namespace pbt;
using Caitlyn::Char;
using Caitlyn::String;

static const size_t NPos = String::NPosition;

static Char chr(uint32_t cp)
{
    return Char(static_cast<Caitlyn::CodePoint>(cp));
}
static String make(const Cps& v)
{
    const CText t(utf8(v));
    return String(t.get());
}

static void look(Ctx& c, const String& s, const Cps& m, const char* who)
{
    auto bad = [&](const std::string& what) { c.fail(std::string(who) + ": " + what + " differs; shows " + show(s.str()) + ", expected " + show(utf8(m))); };
    if (s.size() != m.size() || s.Length() != m.size())
    {
        bad("size " + std::to_string(s.size()));
    }
    if (s.IsEmpty() != m.empty() || s.NotEmpty() == m.empty())
    {
        bad("emptiness");
    }
    const std::string bytes = utf8(m);
    if (s.str() != bytes || s.ByteCount() != bytes.size())
    {
        bad("conversion to bytes");
    }
    for (size_t i = 0; i < m.size(); ++i)
    {
        if (s[i].GetCodePoint() != m[i] || s.At(i).GetCodePoint() != m[i])
        {
            bad("element " + std::to_string(i));
        }
    }
    size_t i = 0;
    for (auto it = s.begin(); it != s.end(); ++it, ++i)
    {
        if (i >= m.size() || it->GetCodePoint() != m[i])
        {
            bad("forward iteration");
        }
    }
    if (i != m.size())
    {
        bad("length of forward iteration");
    }
    i = m.size();
    for (auto it = s.rbegin(); it != s.rend(); ++it)
    {
        if (i == 0 || it->GetCodePoint() != m[--i])
        {
            bad("backward iteration");
        }
    }
    if (i != 0)
    {
        bad("length of backward iteration");
    }
    i = 0;
    for (auto it = s.cbegin(); it != s.cend(); ++it, ++i)
    {
        if (i >= m.size() || it->GetCodePoint() != m[i])
        {
            bad("constant iteration");
        }
    }
    i = m.size();
    for (auto it = s.crbegin(); it != s.crend(); ++it)
    {
        if (i == 0 || it->GetCodePoint() != m[--i])
        {
            bad("constant backward iteration");
        }
    }
    const auto data = s.data();
    if (data.size() != m.size())
    {
        bad("data()");
    }
}

static size_t find_at(const Cps& h, const Cps& n, size_t pos)
{
    for (size_t i = pos; i <= h.size() && i + n.size() <= h.size(); ++i)
    {
        if (std::equal(n.begin(), n.end(), h.begin() + static_cast<long>(i)))
        {
            return i;
        }
    }
    return NPos;
}
static size_t rfind_at(const Cps& h, const Cps& n)
{
    for (size_t i = h.size() + 1; i-- > 0;)
    {
        if (i + n.size() <= h.size() && std::equal(n.begin(), n.end(), h.begin() + static_cast<long>(i)))
        {
            return i;
        }
    }
    return NPos;
}

// A needle: part of the text, a slightly changed part, or something else
static Cps needle(Src& s, const Cps& h)
{
    Cps n;
    const size_t kind = s.weighted({5, 3, 2});
    if (kind < 2 && !h.empty())
    {
        const size_t from = s.below(h.size());
        const size_t len = 1 + s.below(std::min<size_t>(h.size() - from, 6));
        n.assign(h.begin() + static_cast<long>(from), h.begin() + static_cast<long>(from + len));
        if (kind == 1)
        {
            n[s.below(n.size())] = narrow_code_point(s);
        }
        return n;
    }
    n = text_of(s, 4, narrow_code_point);
    return n;
}

static size_t position(Src& s, size_t size)
{
    switch (s.weighted({10, 3, 1, 1}))
    {
        case 0:
            return s.below(size + 1);
        case 1:
            return size + s.below(3);
        case 2:
            return size + s.below(1000);
        default:
            return NPos - s.below(3);
    }
}

static void query(Src& s, Ctx& c, const String& t, const Cps& m, bool& rich)
{
    const Cps n = needle(s, m);
    const String ns = make(n);
    const bool occurs = find_at(m, n, 0) != NPos;
    const size_t pos = position(s, m.size());
    c.log << "query needle " << show(utf8(n)) << " pos " << pos << "; ";
    c.eq(t.StartsWith(ns), n.size() <= m.size() && std::equal(n.begin(), n.end(), m.begin()), "StartsWith");
    c.eq(t.EndsWith(ns), n.size() <= m.size() && std::equal(n.rbegin(), n.rend(), m.rbegin()), "EndsWith");
    const CText ct(utf8(n));
    c.eq(t.Contains(ns), occurs, "Contains");
    c.eq(t.Find(ns), find_at(m, n, 0), "Find from the beginning");
    c.eq(t.Find(ns, pos), pos > m.size() ? NPos : find_at(m, n, pos), "Find from a position");
    c.eq(t.Find(ct.get(), pos), pos > m.size() ? NPos : find_at(m, n, pos), "Find of a C text");
    if (!n.empty())
    {
        c.eq(t.ReverseFind(ns), rfind_at(m, n), "ReverseFind");
        // any position from the last character on means the whole text
        c.eq(t.ReverseFind(ns, m.size() + s.below(3) - (m.empty() ? 0 : 1)), rfind_at(m, n), "ReverseFind from the end");
        const bool several = occurs && rfind_at(m, n) != find_at(m, n, 0);
        c.label_if(occurs, "needle occurs");
        c.label_if(several, "needle occurs several times");
        rich |= several;
    }
    const uint32_t limit = m.empty() || s.flip() ? narrow_code_point(s) : m[s.below(m.size())];
    auto pred = [limit](const Char& ch) { return ch.GetCodePoint() >= limit; };
    auto expect = [&](size_t from, bool want)
    {
        for (size_t i = from; i < m.size(); ++i)
        {
            if ((m[i] >= limit) == want)
            {
                return i;
            }
        }
        return NPos;
    };
    c.eq(t.FindIf(pred), expect(0, true), "FindIf");
    c.eq(t.FindIfNot(pred), expect(0, false), "FindIfNot");
    c.eq(t.FindIf(pred, pos), pos > m.size() ? NPos : expect(pos, true), "FindIf from a position");
    c.eq(t.FindIfNot(pred, pos), pos > m.size() ? NPos : expect(pos, false), "FindIfNot from a position");
}

static void run(Src& s, Ctx& c)
{
    const size_t P = 3;
    String pool[P];
    Cps model[P];
    for (size_t i = 0; i < P; ++i)
    {
        model[i] = i == 0 ? stretched(s, text(s, 300), 9000) : text(s, 12);
        pool[i] = make(model[i]);
        c.log << "s" << i << "=" << show(utf8(model[i])) << "; ";
    }
    size_t edits = 0, refused = 0;
    bool multibyte = false, rich = false;
    const size_t steps = 1 + s.below(25);
    for (size_t step = 0; step < steps; ++step)
    {
        const size_t a = s.below(P), b = s.below(P);
        String& t = pool[a];
        Cps& m = model[a];
        auto limit = [&](size_t extra) { return m.size() + extra > 3000; };
        const size_t op = s.below(24);
        c.log << "\n  s" << a << " op " << op << ": ";
        switch (op)
        {
            case 0:
            {
                query(s, c, t, m, rich);
                break;
            }
            case 1:
            {
                const Cps v = text(s, 12);
                const CText ct(utf8(v));
                c.log << "Append " << show(utf8(v));
                t.Append(ct.get());
                m.insert(m.end(), v.begin(), v.end());
                ++edits;
                break;
            }
            case 2:
            {
                if (!m.empty() && s.chance(1, 4))
                {
                    const size_t i = s.below(m.size());
                    c.log << "PushBack own element " << i;
                    t.PushBack(t[i]);
                    m.push_back(uint32_t(m[i]));
                }
                else
                {
                    const uint32_t cp = code_point(s);
                    c.log << "PushBack " << cp;
                    t.PushBack(chr(cp));
                    m.push_back(cp);
                }
                ++edits;
                break;
            }
            case 3:
            {
                const Cps v = text(s, 12);
                const CText ct(utf8(v));
                const size_t pos = position(s, m.size());
                c.log << "Insert text " << show(utf8(v)) << " at " << pos;
                if (pos > m.size())
                {
                    c.must_throw([&] { t.Insert(pos, ct.get()); }, "Insert(text) behind the end");
                    ++refused;
                }
                else
                {
                    t.Insert(pos, ct.get());
                    m.insert(m.begin() + static_cast<long>(pos), v.begin(), v.end());
                    ++edits;
                }
                break;
            }
            case 4:
            {
                const size_t pos = position(s, m.size());
                c.log << "Insert s" << b << " at " << pos;
                if (limit(model[b].size()))
                {
                    break;
                }
                if (pos > m.size())
                {
                    c.must_throw([&] { t.Insert(pos, pool[b]); }, "Insert(String) behind the end");
                    ++refused;
                }
                else
                {
                    const Cps v = model[b];
                    t.Insert(pos, pool[b]);
                    m.insert(m.begin() + static_cast<long>(pos), v.begin(), v.end());
                    ++edits;
                    c.label_if(a == b, "insert into itself");
                }
                break;
            }
            case 5:
            {
                const size_t pos = position(s, m.size()), n = s.length(40);
                const bool own = !m.empty() && s.chance(1, 4);
                const size_t i = own ? s.below(m.size()) : 0;
                const uint32_t cp = own ? m[i] : code_point(s);
                c.log << "Insert " << n << " x " << cp << (own ? " (own element)" : "") << " at " << pos;
                const Char other = chr(cp);
                const Char& ch = own ? t[i] : other;
                if (pos > m.size())
                {
                    c.must_throw([&] { t.Insert(pos, n, ch); }, "Insert(count, char) behind the end");
                    ++refused;
                }
                else
                {
                    t.Insert(pos, n, ch);
                    m.insert(m.begin() + static_cast<long>(pos), n, cp);
                    ++edits;
                }
                break;
            }
            case 6:
            {
                const size_t n = s.length(40);
                const bool own = !m.empty() && s.chance(1, 4);
                const size_t i = own ? s.below(m.size()) : 0;
                const uint32_t cp = own ? m[i] : code_point(s);
                c.log << "Append " << n << " x " << cp << (own ? " (own element)" : "");
                if (own)
                {
                    t.Append(n, t[i]);
                }
                else if (s.flip())
                {
                    t.Append(n, chr(cp));
                }
                else
                {
                    const CText ct(utf8(cp));
                    t.Append(n, ct.get());
                }
                m.insert(m.end(), n, cp);
                ++edits;
                break;
            }
            case 7:
            {
                if (limit(model[b].size()))
                {
                    break;
                }
                c.log << "s" << a << " += s" << b;
                const Cps v = model[b];
                String& r = (t += pool[b]);
                c.check(&r == &t, "operator+= must return its object");
                m.insert(m.end(), v.begin(), v.end());
                ++edits;
                c.label_if(a == b, "append to itself");
                break;
            }
            case 8:
            {
                const size_t d = s.below(P);
                if (limit(model[b].size()))
                {
                    break;
                }
                c.log << "s" << d << " = s" << a << " + s" << b;
                Cps v = m;
                v.insert(v.end(), model[b].begin(), model[b].end());
                const String sum = t + pool[b];
                look(c, sum, v, "sum");
                pool[d] = sum;
                model[d] = v;
                ++edits;
                break;
            }
            case 9:
            {
                if (!s.chance(1, 3))
                {
                    break;
                }
                c.log << "Clear";
                t.Clear();
                m.clear();
                ++edits;
                break;
            }
            case 10:
            case 11:
            {
                const size_t pos = position(s, m.size());
                const bool to_end = s.flip();
                const size_t n = to_end ? NPos : s.flip() ? s.below(m.size() + 3) : NPos - s.below(m.size() + 2);
                const size_t d = s.below(P);
                c.log << "s" << d << " = Substring(" << pos << ", " << n << ")";
                if (pos > m.size())
                {
                    c.must_throw([&] { t.Substring(pos, n); }, "Substring behind the end");
                    ++refused;
                }
                else
                {
                    const size_t take = std::min(n, m.size() - pos);
                    const Cps v(m.begin() + static_cast<long>(pos), m.begin() + static_cast<long>(pos + take));
                    const String sub = to_end && s.flip() ? t.Substring(pos) : t.Substring(pos, n);
                    look(c, sub, v, "substring");
                    pool[d] = sub;
                    model[d] = v;
                    ++edits;
                }
                break;
            }
            case 12:
            {
                c.log << "s" << a << " = s" << b;
                String& r = (t = pool[b]);
                c.check(&r == &t, "assignment must return its object");
                const Cps v = model[b];
                m = v;
                ++edits;
                break;
            }
            case 13:
            {
                c.log << "s" << a << " = move(s" << b << ")";
                t = std::move(pool[b]);
                if (a != b)
                {
                    m = model[b];
                    pool[b].Clear();
                    model[b].clear();
                }
                ++edits;
                break;
            }
            case 14:
            {
                c.log << "copy and move construction from s" << a;
                String x(t);
                look(c, x, m, "copy");
                String y(std::move(x));
                look(c, y, m, "moved copy");
                y.PushBack(chr('z'));
                if (y.size() > 1)
                {
                    y[0] = chr('!');
                }
                look(c, t, m, "original after its copy was changed");
                break;
            }
            case 15:
            case 16:
            case 17:
            {
                const size_t pos = position(s, m.size());
                const uint32_t cp = code_point(s);
                const size_t way = s.below(5);
                c.log << "write " << cp << " at " << pos << " way " << way;
                if (pos >= m.size())
                {
                    const String& k = t;
                    c.must_throw([&] { t.At(pos) = chr(cp); }, "At behind the end");
                    c.must_throw([&] { (void)k.At(pos).size(); }, "constant At behind the end");
                    ++refused;
                    break;
                }
                const auto off = static_cast<String::DifferenceType>(pos);
                switch (way)
                {
                    case 0:
                        t[pos] = chr(cp);
                        break;
                    case 1:
                        t.At(pos) = chr(cp);
                        break;
                    case 2:
                        *(t.begin() + off) = chr(cp);
                        break;
                    case 3:
                        *(t.end() - 1 - static_cast<String::DifferenceType>(m.size() - 1 - pos)) = chr(cp);
                        break;
                    default:
                        *(t.rbegin() + static_cast<String::DifferenceType>(m.size() - 1 - pos)) = chr(cp);
                }
                m[pos] = cp;
                ++edits;
                break;
            }
            default:
            {
                query(s, c, t, m, rich);
                break;
            }
        }
        for (size_t i = 0; i < P; ++i)
        {
            look(c, pool[i], model[i], ("s" + std::to_string(i)).c_str());
            for (auto cp : model[i])
            {
                multibyte |= cp > 0x7F;
            }
        }
    }
    c.eq(String::Empty().size(), size_t{0}, "Empty().size()");
    c.label_if(refused > 0, "refused position");
    c.label_if(multibyte, "multi-byte");
    c.label_if(edits >= 5, "five or more edits");
    c.nontrivial = edits >= 3 && multibyte;
}

static const Config cfg{"S02", run, 0, nullptr, true, 20};
PBT_MAIN(cfg)
